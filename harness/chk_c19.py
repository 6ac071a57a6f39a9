"""C19: parallel runs give the sequential results on every process."""
import json
import os
import random
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SCENARIO_TIMEOUT = 240
MPI_ARGS = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none",
            "--mca", "btl_vader_single_copy_mechanism", "none",
            "--mca", "btl", "self,vader", "--mca", "mpi_yield_when_idle", "1",
            "--mca", "orte_tmpdir_base"]
KINDS = ["int", "int", "split", "par", "par", "adapt", "file", "norm", "outer"]
BATCH = 36


def scenarios(tier, seed):
    k = 1 if tier == "quick" else 12
    out = []
    for b in range(2 * k):
        for R in (2, 3, 2, 4):
            out.append({"s": f"{seed}/{b}/{len(out)}", "R": R, "n": BATCH})
    return out


def run(sc):
    """A batch of scenarios on R processes."""
    import drive

    todo = [{"s": f"{sc['s']}/{i}", "kind": KINDS[i % len(KINDS)]}
            for i in range(sc["n"])]
    if "only" in sc:
        todo = [todo[sc["only"]]]
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        fn, out = os.path.join(d, "s.json"), os.path.join(d, "out")
        with open(fn, "w") as f:
            json.dump(todo, f)
        start, res, bad = 0, [], 0
        env = {k: v for k, v in os.environ.items()
               if not k.startswith(("OMPI_", "PMIX_")) or "MCA" in k}
        env.pop("OMPI_MCA_ess_singleton_isolated", None)
        while start < len(todo):
            with open(os.path.join(d, "log"), "w") as log:
                p = subprocess.run(
                    MPI_ARGS + [d, "-n", str(sc["R"]), sys.executable,
                                os.path.join(HERE, "mpi_worker.py"), fn, str(start), out],
                    cwd=d, env=env, stdout=log, stderr=log, check=False)
            try:
                prog = open(out + ".progress").read()
            except FileNotFoundError:
                raise SystemExit("mpirun failed: "
                                 + open(os.path.join(d, "log")).read()[-1500:])
            if prog == "done":
                break
            bad += 1
            crash = drive.crash(sc, "death", f"exit {p.returncode}")
            if os.path.exists(out + ".crash"):
                crash = json.load(open(out + ".crash"))
                os.remove(out + ".crash")
            crash["msg"] = f"scenario {prog}: " + crash["msg"]
            res.append(crash)
            start = int(prog) + 1
            if bad >= 2:
                break
        if os.path.exists(out):
            for line in open(out):
                res += json.loads(line)
    return res


# ---------------------------------------------------------------------------
# what follows runs on all processes, with the same random numbers
def parts_of(rng, R, total=None):
    while True:
        p = [rng.choice([0, 1, 1, 2]) for _ in range(R)]
        if sum(p) > 0:
            return p


def layout(rng, R):
    import zp

    nq = rng.choice([1, 2, 2, 3])
    qs, parts = [], {}
    for i, nm in enumerate(rng.sample(["qa", "qb", "qc", "qd"], nq)):
        pt = parts_of(rng, R) if rng.random() < 0.65 else None
        parts[nm] = pt
        tail = rng.choice([(), (), (2,), (1,)])
        first = sum(pt) if pt else rng.choice([1, 2])
        qs.append((nm, (first,) + tail, i == 0 or rng.random() < 0.8))
    ps = []
    for nm in rng.sample(["pa", "pb"], rng.choice([0, 1, 1, 2])):
        pt = parts_of(rng, R) if rng.random() < 0.6 else None
        parts[nm] = pt
        ps.append((nm, (sum(pt) if pt else rng.choice([1, 2]),)
                   + rng.choice([(), (), (2,), (1,)])))
    lay = zp.make_layout(qs, ps, rng.random() < 0.7, nq > 1 and rng.random() < 0.5)
    for q in lay["quantities"] + lay["params"]:
        q["parts"] = parts[q["name"]]
    names = [q[0] for q in qs]
    lay["comps"] = [[n] for n in names] if lay["split"] else [names]
    lay["par"] = []
    lay["tagged"] = {k: 0 for k in ["time"] + [p[0] for p in ps]}
    lay["sees"] = {own[0]: {"x": names, "k": lay["before"][own[0]],
                            "p": [p[0] for p in ps], "t": lay["has_time"]}
                   for own in lay["comps"]}
    lay["order"] = rng.sample(names, nq)
    return lay


def par_layout(rng, R):
    """Two or more branches of a parallel group, then a common component."""
    import zp

    nb = rng.choice([2, 2, 3]) if R > 2 else rng.choice([2, 2, 3])
    shape = lambda: rng.choice([(1,), (2,), (2, 1), (3,)])
    qs, comps, sees, tagged = [], [], {}, {}
    ps = [("pz", shape())] if rng.random() < 0.6 else []
    has_time = rng.random() < 0.8
    common = rng.random() < 0.8 or has_time or bool(ps)
    for b in range(nb):
        own = [f"b{b}{c}" for c in "xy"[: rng.choice([1, 1, 2])]]
        for nm in own:
            qs.append((nm, shape(), rng.random() < 0.85))
        pb = []
        if rng.random() < 0.5:
            ps.append((f"p{b}", shape()))
            pb.append(f"p{b}")
            tagged[f"p{b}"] = b
        comps.append(own)
        sees[own[0]] = {"x": own, "k": [], "t": False, "p": pb}
    if common:
        own = ["cc"] + (["cd"] if rng.random() < 0.3 else [])
        for nm in own:
            qs.append((nm, shape(), rng.random() < 0.85))
        comps.append(own)
        ks = [q[0] for q in qs if q[0] not in own and rng.random() < 0.8]
        sees[own[0]] = {"x": own, "k": ks, "t": has_time,
                        "p": [p[0] for p in ps if p[0] == "pz"]}
        tagged["time"] = tagged["pz"] = nb
    lay = zp.make_layout(qs, ps, has_time, False)
    for q in lay["quantities"] + lay["params"]:
        q["parts"] = None
    lay.update(comps=comps, par=list(range(nb)), tagged=tagged, sees=sees,
               order=rng.sample([q[0] for q in qs], len(qs)))
    return lay


def point(rng, lay):
    from rig import dyadic

    return ([dyadic(rng) for _ in range(lay["n"])],
            [dyadic(rng) for _ in range(lay["m"])], dyadic(rng))


def play(sc, world):
    rng = random.Random(sc["s"])
    return globals()["play_" + sc["kind"]](rng, world)


def config(rng, n, h, adaptive=False, end=None):
    from rkopenmdao.integration_config import IntegrationConfig
    from rkopenmdao.termination_criterion import (PredefinedFinalTime,
                                                  PredefinedNumberOfSteps)

    return IntegrationConfig(adaptive, PredefinedNumberOfSteps(n) if end is None else
                             PredefinedFinalTime(end), h)


def checkpointing(rng, n):
    import rig

    k = rng.choice(["all", "all", "pyrevolve", "none"])
    kw = {"checkpointing_type": rig.CHECKPOINTERS[k]}
    if k == "pyrevolve" and rng.random() < 0.6:
        kw["checkpoint_options"] = {
            "revolver_options": {"n_checkpoints": rng.randint(1, max(1, n - 1))}}
    return k, kw


def model(rng, lay):
    import dist
    import zp

    ode = zp.Ode.random(rng, lay["n"], lay["m"], lay["mask"])
    dist.restrict(ode, lay, rng)
    return ode


def play_par(rng, comm):
    return integrate(rng, comm, par_layout(rng, comm.size))


def play_int(rng, comm):
    return integrate(rng, comm, layout(rng, comm.size))


def integrate(rng, comm, lay):
    import dist
    from rig import dyadic, random_tableau, tab_json
    from scen import STEPS
    from zp import proj

    ode = model(rng, lay)
    emb = rng.random() < 0.3
    tab = random_tableau(rng, s=rng.choice([1, 2, 2, 3]), embedded=emb)
    n, h = rng.randint(1, 4), rng.choice(STEPS)
    k, kw = checkpointing(rng, n)
    r = dist.DRig(ode, lay, tab, comm, integration_config=config(rng, n, h), **kw)
    ev = []
    for _ in range(rng.choice([1, 1, 2])):
        ev += [r.set(*point(rng, lay)), r.run()]
        if rng.random() < 0.8:
            ev.append(r.fwd(*point(rng, lay)))
        if k != "none":
            for _ in range(rng.choice([1, 1, 2])):
                x, _, t = point(rng, lay)
                ev.append(r.rev(x, t))
    return [{"o": ode.as_json(), "tb": tab_json(tab), "hs": [proj(h)] * n, "ev": ev,
             **r.maps()}]


def play_split(rng, world):
    """Two groups of processes, each with an integration of its own."""
    color = rng.randrange(2) ^ (world.rank % 2 if rng.random() < 0.5 else
                                int(world.rank >= world.size // 2))
    comm = world.Split(color, world.rank)
    rng = random.Random(f"{rng.random()}/{color}")
    kind = rng.choice(["int", "int", "adapt", "file", "norm", "par"])
    if kind == "par" and comm.size == 1:
        kind = "int"
    res = globals()["play_" + kind](rng, comm)
    comm.Barrier()
    heads = world.gather(res if comm.rank == 0 else [])
    comm.Free()
    return [t for r in heads for t in r] if world.rank == 0 else []


def play_outer(rng, comm):
    """A parallel group of integrators in a larger model, with shared inputs."""
    import numpy as np
    import openmdao.api as om

    import dist
    import rig
    import zp
    from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
    from scen import STEPS
    from zp import proj, projv

    R = comm.size
    num = R if R != 4 or rng.random() < 0.5 else 2
    if num == 1:
        return play_int(rng, comm)
    sub = comm.Split(comm.rank * num // R, comm.rank) if num < R else None
    from mpi4py import MPI

    shared = rng.random() < 0.6
    prob = om.Problem(reports=False, comm=comm)
    ivc = prob.model.add_subsystem("ivc", om.IndepVarComp(), promotes=["*"])
    par = prob.model.add_subsystem("par", om.ParallelGroup(), promotes=["*"])
    members, shape = [], rng.choice([(1,), (2,), (2, 1)])
    for i in range(num):
        qs = [(nm, rng.choice([(1,), (2,), (1, 2)]), rng.random() < 0.85)
              for nm in ["qa", "qb"][: rng.choice([1, 2])]]
        ps = [("pz", shape)] if rng.random() < 0.8 else []
        lay = zp.make_layout(qs, ps, rng.random() < 0.8, False)
        for q in lay["quantities"] + lay["params"]:
            q["parts"] = None
        names = [q[0] for q in qs]
        lay.update(comps=[names], par=[], tagged={"time": 0, "pz": 0},
                   sees={names[0]: {"x": names, "k": [], "p": [p[0] for p in ps],
                                    "t": lay["has_time"]}})
        ode = model(rng, lay)
        tab = rig.random_tableau(rng, s=rng.choice([1, 2, 3]))
        n, h = rng.randint(1, 3), rng.choice(STEPS)
        ck = rig.CHECKPOINTERS[rng.choice(["all", "pyrevolve"])]
        mine = comm.rank * num // R == i
        comp = RungeKuttaIntegrator(
            time_stage_problem=dist.build_inner(
                ode, lay, zp.Recorder(), sub if sub and mine else MPI.COMM_SELF),
            butcher_tableau=rig.make_tableau(tab), integration_config=config(rng, n, h),
            time_integration_quantities=names,
            time_independent_input_quantities=[p[0] for p in ps],
            checkpointing_type=ck)
        # inputs of the integrator -> variables of the model
        ins = {q[0] + "_initial": f"{q[0]}_{i}" for q in qs}
        ins.update({p[0]: "pz" if shared else f"pz_{i}" for p in ps})
        ins["time_initial"] = "t" if shared else f"t_{i}"
        outs = {q[0] + "_final": f"{q[0]}_{i}_final" for q in qs}
        outs["time_final"] = f"t_{i}_final"
        par.add_subsystem(f"rk{i}", comp, promotes=list(ins.items()) + list(outs.items()))
        members.append((lay, ode, tab, n, h, ins, outs))
    free = {}
    for lay, *_, ins, _ in members:
        for q in lay["quantities"]:
            free[ins[q["name"] + "_initial"]] = q["shape"]
        for q in lay["params"]:
            free[ins[q["name"]]] = q["shape"]
        free[ins["time_initial"]] = (1,)
    for v, sh in free.items():
        ivc.add_output(v, shape=sh)
    with rig.quiet():
        prob.setup(mode=rng.choice(["fwd", "rev"]))
        prob.final_setup()
    evs = [[] for _ in members]

    def pick(m, values):
        """The values of the model that an integrator gets."""
        lay, _, _, _, _, ins, _ = m
        flat = lambda names: [x for nm in names
                              for x in np.ravel(values[ins[nm]]).tolist()]
        return (flat([q["name"] + "_initial" for q in lay["quantities"]]),
                flat([q["name"] for q in lay["params"]]), flat(["time_initial"])[0])

    def gathered(x, t):
        return {"xs": comm.allgather(projv(x)), "ts": comm.allgather(proj(t))}

    for _ in range(rng.choice([1, 1, 2])):
        val = {v: np.array([rig.dyadic(rng) for _ in range(int(np.prod(sh)))]
                           ).reshape(sh) for v, sh in free.items()}
        for v, x in val.items():
            prob.set_val(v, x)
        with rig.quiet():
            prob.run_model()
            J = prob.compute_totals(of=[o for m in members for o in m[6].values()],
                                    wrt=list(free))
        for ev, m in zip(evs, members):
            x, u, t = pick(m, val)
            ev.append({"op": "set", "x": projv(x), "u": projv(u), "t": proj(t)})
            names = [m[6][q["name"] + "_final"] for q in m[0]["quantities"]]
            tn = m[6]["time_final"]
            get = lambda nm: np.ravel(prob.get_val(nm, get_remote=True)).tolist()
            ev.append({"op": "run", **gathered([a for nm in names for a in get(nm)],
                                               get(tn)[0])})
            for v, sh in free.items():
                for k in range(int(np.prod(sh))):
                    d = {w: np.zeros(s) for w, s in free.items()}
                    d[v].ravel()[k] = 1.0
                    dx, du, dt = pick(m, d)
                    ev.append({"op": "fwd", "dx": projv(dx), "du": projv(du),
                               "dt": proj(dt), **gathered(
                                   [a for nm in names for a in J[nm, v][:, k].tolist()],
                                   float(J[tn, v][0, k]))})
    if sub:
        sub.Free()
    res = []
    for ev, (lay, ode, tab, n, h, _, _) in zip(evs, members):
        res.append({"o": ode.as_json(), "tb": rig.tab_json(tab), "hs": [proj(h)] * n,
                    "ev": ev, "xm": [list(range(1, lay["n"] + 1))] * R,
                    "um": [list(range(1, lay["m"] + 1))] * R})
    return res


def play_norm(rng, comm):
    import numpy as np

    import chk_c16
    import dist
    import zp
    from rig import quiet
    from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE

    lay = (par_layout if comm.size > 1 and rng.random() < 0.4 else layout)(rng, comm.size)
    ode = model(rng, lay)
    order = rng.choice(chk_c16.ORDERS)
    kind, m, k = order
    val = {"inf": np.inf, "ninf": -np.inf, "zero": 0.0}.get(kind)
    if val is None:
        val = m / k
    excl = [q["name"] for q in lay["quantities"] if rng.random() < 0.3]
    if len(excl) == len(lay["quantities"]):
        excl = []
    part = [[q["start"] + 1, q["end"], int(q["name"] in excl)]
            for q in lay["quantities"]]
    with quiet():
        prob = dist.build_inner(ode, lay, zp.Recorder(), comm)
        prob.setup()
        prob.final_setup()
        o = OpenMDAOODE(prob, lay["order"], [u["name"] for u in lay["params"]],
                        norm_exclusions=excl, norm_order=val)
    byname = {q["name"]: q for q in lay["quantities"]}

    def norm(v):
        loc = np.zeros(o.get_state_size())
        for q in o.time_integration_metadata.time_integration_quantity_list:
            am, g = q.array_metadata, byname[q.name]
            if am.local:
                loc[am.start_index : am.end_index] = [
                    v[g["start"] + i] for i in dist.part(g, comm.rank)]
        return float(o.compute_state_norm(chk_c16.state(loc)))

    ev = []
    for _ in range(3):
        top = rng.choice([3, chk_c16.TOP[m, k]])
        a = [rng.randint(-top, top) if rng.random() < 0.85 else 0
             for _ in range(lay["n"])]
        v = [float(x) if kind != "p" else float(np.sign(x)) * abs(x) ** k for x in a]
        for r in comm.allgather(norm(v)):
            ev.append({"op": "norm", "kind": kind, "m": m, "k": k, "a": a, "part": part,
                       **chk_c16.res(r), "kept": 1})
    if kind != "zero":
        v = [float(rng.randint(0, 3)) for _ in range(lay["n"])]
        lo, hi, _ = rng.choice([p for p in part if not p[2]])
        v[rng.randrange(lo - 1, hi)] = np.nan
        for r in comm.allgather(norm(v)):
            ev.append({"op": "nan", "nan": int(not np.isfinite(r))})
    return [{"spec": "TraceNorm", "ev": ev}]


def play_file(rng, comm):
    import h5py

    import dist
    from rig import random_tableau, tab_json
    from rkopenmdao.file_writer import OpenMDAOHDF5Callback
    from scen import STEPS
    from zp import proj, projv

    lay = (par_layout if comm.size > 1 and rng.random() < 0.4 else layout)(rng, comm.size)
    ode = model(rng, lay)
    tab = random_tableau(rng, s=rng.choice([1, 2]), embedded=rng.random() < 0.4)
    n, h, period = rng.randint(1, 6), rng.choice(STEPS), rng.choice([1, 1, 2, 3])
    k, kw = checkpointing(rng, n)
    fn = os.path.join(os.getcwd(), f"res_{comm.bcast(rng.random())}.h5")
    from mpi4py import MPI

    wkw = {} if comm.size == MPI.COMM_WORLD.size and rng.random() < 0.5 else {"comm": comm}
    r = dist.DRig(ode, lay, tab, comm, integration_config=config(rng, n, h),
                  compute_callbacks=[OpenMDAOHDF5Callback(fn, period, **wkw)], **kw)
    ev = []
    for _ in range(rng.choice([1, 2])):
        ev += [r.set(*point(rng, lay)), r.run()]
        if k != "none" and rng.random() < 0.5:
            x, _, t = point(rng, lay)
            ev.append(r.rev(x, t))
        comm.Barrier()
        g = []
        if comm.rank == 0:
            with h5py.File(fn, "r") as f:
                for key, grp in f.items():
                    names = [x for x in grp.keys() if x not in ("time", "error_measure")]
                    g.append({"k": int(key), "t": projv(grp["time"][...]),
                              "q": [{"name": x, "shape": list(grp[x].shape),
                                     "v": projv(grp[x][...])} for x in names]})
        ev.append({"op": "file", "g": comm.bcast(g)})
    return [{"o": ode.as_json(), "tb": tab_json(tab), "hs": [proj(h)] * n, "ev": ev,
             "period": period,
             "q": [{"name": q["name"], "shape": list(q["shape"]), "lo": q["start"] + 1,
                    "hi": q["end"]} for q in lay["quantities"]], **r.maps()}]


def play_adapt(rng, comm):
    """Decisions depend on the package's measure of the error of all processes."""
    import numpy as np

    import dist
    from adapt import mix
    from rig import random_tableau, tab_json
    from rkopenmdao.callback import Callback
    from rkopenmdao.error_controller import (ErrorController, ErrorControllerConfig,
                                             ErrorControllerStatus)
    from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer
    from zp import proj

    lay = (par_layout if comm.size > 1 and rng.random() < 0.3 else layout)(rng, comm.size)
    ode = model(rng, lay)
    tab = random_tableau(rng, s=rng.choice([1, 2, 3]), embedded=True)
    n = rng.randint(1, 5)
    k, kw = checkpointing(rng, n)
    seed = rng.random()
    log = []

    class Ctl(ErrorController):
        def __call__(self, *, error_measure, delta_t, remaining_time, error_history,
                     step_size_history):
            v = mix(seed, float(error_measure), float(delta_t))
            log.append([float(error_measure).hex(), float(delta_t).hex(),
                        [float(e).hex() for e in error_history]])
            ok = v % 3 > 0 or delta_t < 2.0**-6
            sg = [0.5, 0.25, 0.125, 0.375][v % 4] if ok else delta_t * 0.5
            sg = min(sg, float(np.ravel(remaining_time)[0]) + (0.0 if ok else delta_t))
            return ErrorControllerStatus(sg, bool(ok))

    hs = []

    class Steps(Callback):
        def before_iteration(self, iteration, time_integration_state, ode,
                             discretization_scheme):
            pass

        def after_iteration(self, iteration, time_integration_state, ode,
                            discretization_scheme):
            hs.append(proj(time_integration_state.step_size_history[0]))

    pts = [point(rng, lay) for _ in range(rng.choice([1, 1, 2]))]
    end = None
    if k != "pyrevolve" and rng.random() < 0.4:
        del pts[1:]
        end = pts[0][2] + rng.choice([0.625, 1.0, 1.375])
    r = dist.DRig(
        ode, lay, tab, comm, integration_config=config(rng, n, 0.5, True, end),
        compute_callbacks=[Steps()],
        error_controller=[lambda p, base=None, **kw: Ctl(
            alpha=0.0, config=ErrorControllerConfig(1e-3))],
        error_measurer=rng.choice([SimpleErrorMeasurer, ImprovedErrorMeasurer])(), **kw)
    ev = []
    for pt in pts:
        ev.append(r.set(*pt))
        hs.clear()
        log.clear()
        e = r.run()
        e["hs"] = r.all(list(hs))
        for m in zip(*r.all([json.dumps(x) for x in log])):
            ev.append({"op": "trial", "m": list(m)})
        ev.append(e)
        if k == "all" and rng.random() < 0.7:
            x, _, t = point(rng, lay)
            ev.append(r.rev(x, t))
    return [{"o": ode.as_json(), "tb": tab_json(tab), "ev": ev, **r.maps()}]
