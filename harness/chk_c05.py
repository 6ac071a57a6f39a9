"""C05: the checkpointing scheme changes memory and cost, never results."""
import functools
import random

from chk_c04 import tok
from rig import random_tableau
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_controllers import h_211, integral
from scen import Conf

MODES = ["fixed", "emb", "adaptive"]


def scenarios(tier, seed):
    rng = random.Random(seed)
    res = []
    top = 11 if tier == "quick" else 22
    for n in range(1, top + 1):
        for typ in ["Memory", "SingleLevel", "Disk"]:
            for cp in range(0, n + 2):
                for rep in range(1 if tier == "quick" else 2):
                    res.append({"N": n, "typ": typ, "cp": cp,
                                "mode": MODES[(n + cp + rep) % 3],
                                "cs": rng.randrange(6), "seed": seed})
    for n in [12, 17, 30] if tier == "quick" else [30, 45, 64, 100]:
        for cp in [0, 1, 2, 3, 5, 8]:
            for mode in MODES[:2] if tier == "quick" else MODES:
                res.append({"N": n, "typ": rng.choice(["Memory", "SingleLevel", "Disk"]),
                            "cp": cp, "mode": mode, "cs": 6, "seed": seed})
    for n in range(1, 6 if tier == "quick" else 12):
        for mode in MODES:
            for typ in ["none", "all"]:
                for cs in range(3):
                    res.append({"N": n, "typ": typ, "cp": 0, "mode": mode, "cs": cs,
                                "seed": seed})
    return res


def common(mode, n):
    if mode != "adaptive":
        return {}
    return dict(adaptive=True, integrator_options=dict(
        error_controller=[h_211, integral],
        error_controller_options={"config": ErrorControllerConfig(
            tol=4000.0, lower_bound=0.01, upper_bound=1.0, max_iter=2)}))


def snap(e):
    keys = ("t0", "t1", "x0", "x1", "K", "T", "h", "u", "emb")
    return _S.setdefault(repr([e[k] for k in keys]), len(_S) + 1)


_S = {}
OPS = ["R", "B0", "B1", "F0", "R", "F0", "B0", "R", "B1"]


def sweep(r, ops, dirs, seeds):
    ev, data = [], {}
    for i, op in enumerate(ops):
        what = {"R": "run", "F": "fwd", "B": "rev"}[op[0]]
        ev.append({"op": "begin", "what": what})
        r.log.clear()
        e = {"op": "end", "i": i + 1, "got": 0, "raised": 0}
        try:
            if op[0] == "R":
                e["got"] = tok(r.c_run())
            elif op[0] == "F":
                e["got"] = tok(r.c_fwd(*dirs[int(op[1])]))
            else:
                e["got"] = tok(r.c_rev(*seeds[int(op[1])]))
        except Exception as ex:  # noqa
            if type(ex).__name__ == "Hang":
                raise
            e["raised"], e["exc"] = 1, repr(ex)[:200]
        if what == "run":
            data = {q["k"]: snap(q) for q in r.log
                    if q["mode"] == "run" and q["when"] == "after"}
        for q in r.log:
            if q["mode"] == "rev":
                ev.append({"op": "cb", "w": q["when"][0], "k": q["k"], "s": snap(q)})
        ev.append(e)
    return ev, data


@functools.lru_cache(maxsize=None)
def setting(seed, n, mode, cs):
    rng = random.Random(f"{seed}/{n}/{mode}/{cs}")
    c = Conf(rng, n_steps=n, tab=random_tableau(rng, s=rng.choice([1, 2, 3]),
                                                embedded=mode != "fixed"))
    c.n_callbacks = 1
    dirs = [c.direction(rng, "full")]
    seeds = [c.seed(rng, "full"), c.seed(rng)]
    pt = c.point(rng)
    r = c.rig(checkpointing="all", **common(mode, n))
    r.c_set(*pt)
    ev, data = sweep(r, OPS, dirs, seeds)
    ref = [e["got"] for e in ev if e["op"] == "end"]
    return c, pt, dirs, seeds, [data.get(k, 0) for k in range(1, n + 1)], ref


def run(sc):
    c, pt, dirs, seeds, data, ref = setting(sc["seed"], sc["N"], sc["mode"], sc["cs"])
    kw = dict(checkpointing=sc["typ"])
    if sc["typ"] not in ("none", "all"):
        opt = {"revolver_type": sc["typ"]}
        if sc["typ"] == "Memory" and sc["cp"] % 2 == 0:
            opt = {}  # the default
        if sc["cp"]:
            opt["revolver_options"] = {"n_checkpoints": sc["cp"]}
        kw = dict(checkpointing="pyrevolve", checkpoint_options=opt)
    r = c.rig(**kw, **common(sc["mode"], sc["N"]))
    r.c_set(*pt)
    ev, _ = sweep(r, OPS, dirs, seeds)
    return [{"N": sc["N"], "scheme": sc["typ"], "data": data, "ref": ref, "ev": ev}]
