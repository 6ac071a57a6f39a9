"""C04: results do not depend on the history of calls, failures included."""
import functools
import json
import os
import random

import numpy as np

from rig import dyadic, random_tableau
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_controllers import h_211, integral
from scen import Conf
from zp import Failure

SCHEMES = ["all", "mem", "mem1", "single", "adaptive"]
POOL = 8


def scenarios(tier, seed):
    h = json.load(open(os.environ["HIST_FILE"]))
    res = []
    for i, x in enumerate(h["h3"]):
        # crash points matter most for the storing scheme
        sch = ["all", "mem", "all", "mem1", "all", "adaptive", "single"][i % 7]
        res.append({"h": x, "sch": sch, "pool": i % POOL, "lev": "comp", "seed": seed})
    for i, x in enumerate(h["h4"]):
        res.append({"h": x, "sch": SCHEMES[i % 5], "pool": (i // 5) % POOL,
                    "lev": "comp", "seed": seed})
    for i, x in enumerate(h["sim"]):
        res.append({"h": x, "sch": SCHEMES[i % 5], "pool": i % POOL,
                    "lev": "prob" if i % 2 else "comp", "seed": seed})
    return res


def integrator_kw(sch, n):
    if sch == "all":
        return dict(checkpointing="all")
    if sch == "mem":
        return dict(checkpointing="pyrevolve")
    if sch == "mem1":
        return dict(checkpointing="pyrevolve",
                    checkpoint_options={"revolver_type": "Memory",
                                        "revolver_options": {"n_checkpoints": 1}})
    if sch == "single":
        return dict(checkpointing="pyrevolve",
                    checkpoint_options={"revolver_type": "SingleLevel",
                                        "revolver_options": {"n_checkpoints": 2}})
    if sch == "adaptive":
        return dict(
            checkpointing="all", adaptive=True,
            integrator_options=dict(
                error_controller=[h_211, integral],
                error_controller_options={"config": ErrorControllerConfig(
                    tol=4000.0, lower_bound=0.01, upper_bound=1.0, max_iter=2)}))
    raise KeyError(sch)


def variant(rng, v):
    """A different value of an input, from far off to hardly different."""
    w = list(v)
    if not w:
        return w
    i = rng.randrange(len(w))
    kind = rng.choice(["one", "tiny", "neg", "swap", "all"])
    if kind == "tiny":
        w[i] = w[i] + 2.0**-36
    elif kind == "neg":
        w = [-a for a in w]
    elif kind == "swap":
        w = w[1:] + w[:1]
    elif kind == "all":
        w = [a + 1.0 for a in w]
    if w == list(v):
        w[i] += 0.25
    return w


@functools.lru_cache(maxsize=None)
def setting(seed, sch, pool):
    rng = random.Random(f"{seed}/{sch}/{pool}")
    n = rng.choice([2, 3, 3, 4])
    emb = sch == "adaptive" or rng.random() < 0.3
    c = Conf(rng, n_steps=n, tab=random_tableau(rng, s=2, embedded=emb),
             h=rng.choice([0.5, 0.25, 1.0]))
    c.n_callbacks = 1
    base = c.point(rng)
    var = (variant(rng, base[0]), variant(rng, base[1]),
           variant(rng, [base[2]])[0])
    pts = [tuple(var[j] if (i >> j) & 1 else base[j] for j in range(3))
           for i in range(8)]
    dirs = [c.direction(rng, "full"), c.direction(rng)]
    seeds = [c.seed(rng, "full"), c.seed(rng)]
    kw = integrator_kw(sch, n)
    fresh = []
    for x, u, t in pts:
        def new():
            r = c.rig(**kw)
            r.set_inputs(x, u, t)
            return r
        r = new()
        e = {"R": tok(r.run()), "F": [], "B": []}
        for d in dirs:
            r = new()
            r.run()
            e["F"].append(tok(r.fwd(*d)))
        for b in seeds:
            r = new()
            r.run()
            e["B"].append(tok(r.rev(*b)))
        fresh.append(e)
    return c, kw, pts, dirs, seeds, fresh


_TOK = {}


def tok(out):
    key = b"".join((np.asarray(v, dtype=float).ravel() + 0.0).tobytes() for v in out)
    return _TOK.setdefault(key, len(_TOK) + 1)


def poison(rng, v):
    """Some entries that are not finite."""
    v = list(v)
    if v:
        v[rng.randrange(len(v))] = rng.choice([np.nan, np.inf, -np.inf])
    return v


def poisoned(op, r, rng, do, put, pt, d, b, comp):
    x, u, t = pt
    if op[0] == "P":
        put(poison(rng, x), poison(rng, u) if rng.random() < 0.3 else u, t)
    else:
        d, b = (poison(rng, d[0]),) + d[1:], (poison(rng, b[0]),) + b[1:]
    try:
        if op[0] == "P" and not comp:
            do["R"]()
        if op[1] == "R":
            do["R"]()
        elif op[1] == "F":
            do["F"](*d)
        else:
            do["B"](*b)
    except Exception as ex:  # noqa
        # anything but a hang is possible with numbers like these
        if type(ex).__name__ == "Hang":
            raise
    put(*pt)


def run(sc):
    c, kw, pts, dirs, seeds, fresh = setting(sc["seed"], sc["sch"], sc["pool"])
    rng = random.Random(json.dumps(sc))
    r = c.rig(**kw)
    cur = [0, 0, 0]
    comp = sc["lev"] == "comp"
    put = r.c_set if comp else r.set_inputs
    do = {"R": r.c_run if comp else r.run, "F": r.c_fwd if comp else r.fwd,
          "B": r.c_rev if comp else r.rev}
    do["G"], do["E"] = do["F"], do["B"]
    put(*pts[0])
    ev = []
    hist = sc["h"] if comp else [["R", 0]] + sc["h"]
    fails = 6 * c.n_steps // 2
    work = list(hist)
    dirty = False
    while work:
        op, n = work.pop(0)
        if dirty and not comp and op in "FGBE":
            # OpenMDAO leaves open which inputs a Problem's derivatives refer to
            # between set_val (or a failed run) and the next complete run
            work.insert(0, (op, n))
            op, n = "R", 0
        if op[0] == "s":
            dirty = True
            cur["xut".index(op[1])] ^= 1
            put(*pts[cur[0] + 2 * cur[1] + 4 * cur[2]])
            ev.append({"op": op})
            continue
        d = rng.randrange(2)
        if op[0] in "PN" and len(op) == 2:
            poisoned(op, r, rng, do, put, pts[cur[0] + 2 * cur[1] + 4 * cur[2]],
                     dirs[d], seeds[d], comp)
            dirty = dirty or (not comp and op[0] == "P")
            ev.append({"op": op})
            continue
        if n and len(hist) > 3:
            n = rng.randint(1, fails)
        if n:
            r.rec.fail_at = ("lin" if op in "GB" else "eval", n)
        arg = () if op == "R" else dirs[d] if op in "FG" else seeds[d]
        e = {"op": op, "n": n, "d": d + 1, "raised": 0, "got": 0}
        try:
            e["got"] = tok(do[op](*arg))
        except Failure:
            e["raised"] = 1
        except Exception as ex:  # noqa
            if type(ex).__name__ == "Hang":
                raise
            # OpenMDAO may re-raise the failure of a component with more context
            e["raised"] = 1 if "Failure" in repr(ex) or (n and str(ex).find("lin") >= 0 or str(ex).find("eval") >= 0) else 2
            e["exc"] = repr(ex)[:200]
        if op == "R":
            dirty = bool(e["raised"])
        r.rec.fail_at = None
        ev.append(e)
    return [{"lev": sc["lev"], "fresh": fresh, "ev": ev}]
