#!/usr/bin/env python3
"""campaign.py OUT.jsonl [N] [SEED] [FILE-SUBSTRING]: random syntactic mutants of the package,
each run against the checks that concern its file until one reports a violation."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
SRC = "/repo/src/rkopenmdao"
MAP = {
    "butcher_tableau.py": "C15", "butcher_tableaux.py": "C15", "callback.py": "C11",
    "components.py": "C20", "om_data_exchange.py": "C20",
    "error_controller.py": "C08,C09,C07", "error_controllers.py": "C08,C09",
    "error_measurer.py": "C16,C07", "errors.py": "C13", "file_writer.py": "C12,C19,C22",
    "integration_config.py": "C10,C01,C07", "metadata_extractor.py": "C13,C19,C16",
    "runge_kutta_integrator.py": "C01,C02,C03,C11,C10,C07,C17,C13,C05,C06,C04,C19,C12",
    "termination_criterion.py": "C10", "time_integration_state.py": "C14,C05",
    "all_checkpointer.py": "C05,C11,C03,C04,C06", "checkpoint_interface.py": "C05,C04",
    "no_checkpointer.py": "C05,C02,C04,C11",
    "pyrevolve_checkpointer.py": "C05,C11,C06,C04",
    "runge_kutta_integrator_pyrevolve_classes.py": "C05,C11,C04",
    "discretized_ode.py": "C18,C01", "openmdao_ode.py": "C16,C20,C01,C02,C03,C19,C13",
    "kaps.py": "C21", "prothero_robinson_ode.py": "C21", "simple_linear_ode.py": "C21",
    "runge_kutta_discretization_state.py": "C14,C18,C05",
    "stage_ordered_runge_kutta_discretization.py": "C18,C01,C07",
    "time_discretization_scheme_interface.py": "C18", "problems.py": "C22,C21",
    "utility_components.py": "C20",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}


SWAP = [("start_state", "final_state"), ("start_time", "final_time"),
        ("step_input", "stage_input"), ("step_size", "stage_factor"),
        ("stage_updates", "stage_states"), ("shape", "global_shape"),
        ("start_index", "global_start_index"), ("step_input_var", "accumulated_stage_var"),
        ("distributed", "local"), ("inputs", "d_inputs"), ("outputs", "d_outputs"),
        ("error_history", "step_size_history"), ("stage_update", "stage_state"),
        ("tol", "lower_bound"), ("butcher_weight_vector", "butcher_time_stages"),
        ("final_state", "embedded_state"), ("_quantity_list", "_quantity_list_")]
SWAP = {a: b for p in SWAP for a, b in (p, p[::-1])}


def mutants2(src):
    """Further kinds: keywords left out, similar names, arrays shared instead of copied."""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            args = [seg(a) for a in n.args]
            if not (isinstance(n.func, ast.Attribute) and n.func.attr == "declare"):
                for i, k in enumerate(n.keywords):
                    if k.arg and k.arg not in ("desc", "name"):
                        rest = [f"{q.arg}={seg(q.value)}" if q.arg else f"**{seg(q.value)}"
                                for j, q in enumerate(n.keywords) if j != i]
                        yield (*pos(n), f"{seg(n.func)}({', '.join(args + rest)})")
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "copy", "flatten", "reset", "clear") and not n.keywords:
                yield (*pos(n), seg(n.func.value))
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            yield (*pos(n), f"{seg(n.value)}.{SWAP[n.attr]}")
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            yield (*pos(n), SWAP[n.id])
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and (
                isinstance(n.targets[0].slice, ast.Slice)):
            yield (*pos(n.targets[0]), seg(n.targets[0].value))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
                yield (*pos(n), f"{seg(n.value)}[{-1 if n.slice.value == 0 else 0}]")
            if isinstance(n.slice, ast.Slice):
                yield (*pos(n), seg(n.value))
        elif isinstance(n, ast.With) or isinstance(n, ast.Try):
            continue


def mutants(src):
    if os.environ.get("CAMP_OPS") == "2":
        yield from mutants2(src)
        return
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    for n in ast.walk(tree):
        rep = []
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep.append(f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep.append(f"({seg(n.left)}) {BIN[type(n.op)]} ({seg(n.right)})")
            rep.append(f"({seg(n.left)})")
        elif isinstance(n, ast.BoolOp):
            o = "or" if isinstance(n.op, ast.And) else "and"
            rep.append(f" {o} ".join(f"({seg(v)})" for v in n.values))
            rep.append(seg(n.values[0])); rep.append(seg(n.values[-1]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep.append(seg(n.operand))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            rep.append(repr(n.value + 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep.append(repr(not n.value))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = n.test
            yield (*pos(t), "True"); yield (*pos(t), "False")
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            if isinstance(n, ast.AugAssign):
                rep.append(f"{seg(n.target)} = {seg(n.value)}")
            rep.append("pass")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep.append("pass")
        elif isinstance(n, ast.For):
            it = n.iter
            yield (*pos(it), f"list({seg(it)})[:-1]"); yield (*pos(it), f"list({seg(it)})[1:]")
            yield (*pos(it), f"list({seg(it)})[::-1]")
        elif isinstance(n, ast.Call):
            nm = seg(n.func)
            if nm in ("deepcopy", "copy.deepcopy", "np.array", "np.copy", "reversed", "list", "dict", "sorted", "abs", "np.abs", "max", "min") and len(n.args) >= 1:
                rep.append(seg(n.args[0]))
            if len(n.args) == 2 and not n.keywords:
                rep.append(f"{nm}({seg(n.args[1])}, {seg(n.args[0])})")
        elif isinstance(n, (ast.Raise, ast.Break, ast.Continue)):
            rep.append("pass")
        for r in rep:
            yield (*pos(n), r)


def one(m, i):
    f, a, e, new = m
    name = os.path.basename(f)
    d = tempfile.mkdtemp(prefix="camp_")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        p = f"{d}/repo/src/rkopenmdao/{f}"
        b = open(p, "rb").read()
        ln = b[:a].count(b"\n") + 1
        out = {"i": i, "file": f, "line": ln, "old": b[a:e].decode()[:160], "new": new[:160]}
        t = b[:a] + new.encode() + b[e:]
        try:
            ast.parse(t.decode())
        except SyntaxError:
            return {**out, "res": "syntax"}
        open(p, "wb").write(t)
        os.makedirs(d + "/cwd")
        for c in MAP[name].split(","):
            t0 = time.time()
            r = subprocess.run(["unshare", "-Urm", "bash", "-c",
                                f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd {d}/cwd && "
                                f"VERIF_SEED=1 timeout 600 python3 /verif/run_check.py {c}"]
                               if False else
                               ["unshare", "-Urm", "bash", "-c",
                                f"mount --bind {d}/repo /repo && cd {d}/cwd && VERIF_SEED=1 "
                                f"timeout 600 python3 {V}/run_check.py {c}"],
                               capture_output=True, text=True)
            if r.returncode:
                v = [l for l in r.stdout.splitlines() if "VIOLATION" in l][:1]
                return {**out, "res": "killed", "by": c, "rc": r.returncode,
                        "v": v[0][-60:] if v else (r.stdout + r.stderr)[-200:],
                        "t": round(time.time() - t0)}
        return {**out, "res": "SURVIVED"}
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    outf = sys.argv[1]; n = int(sys.argv[2]); rng = random.Random(sys.argv[3] if len(sys.argv) > 3 else "1")
    sub = sys.argv[4] if len(sys.argv) > 4 else ""
    V = os.environ.get("CAMP_VERIF", "/verif")
    todo = []
    for root, _, fs in os.walk(SRC):
        for f in fs:
            rel = os.path.relpath(os.path.join(root, f), SRC)
            if f in MAP and sub in rel:
                todo.append([(rel, *m) for m in mutants(open(os.path.join(SRC, rel)).read())])
    for t in todo:
        rng.shuffle(t)
    pick = []
    # files in proportion to the square root of the number of their mutants
    w = [len(t) ** 0.5 if "butcher_tableaux" not in (t[0][0] if t else "") else 2 for t in todo]
    while len(pick) < n and any(todo):
        k = rng.choices(range(len(todo)), w)[0]
        if todo[k]:
            pick.append(todo[k].pop())
        else:
            w[k] = 0
            if not any(w): break
    with open(outf, "a") as o, ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for r in ex.map(lambda p: one(p[1], p[0]), enumerate(pick)):
            o.write(json.dumps(r) + "\n"); o.flush()
