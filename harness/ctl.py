"""Controllers driven directly, recorded for the specification Control."""
import math
import random
import warnings

import numpy as np

from rkopenmdao import error_controllers as ec
from rkopenmdao.error_controller import (ErrorController, ErrorControllerConfig,
                                         ErrorControllerDecorator)
from rkopenmdao.errors import ErrorControllerError

BIG = 1000000000
NAMES = ["pseudo", "integral", "h0_110", "h_211", "h0_211", "pc", "h0_220", "pid",
         "h_312", "h0_312", "ppid", "h_321", "h0_321", "h0_330"]
GENERAL = ["h_312_general", "h_321_general", "h_330_general"]


def D(p):
    return 360 * p * (p + 1)


def units(v, p):
    """log2 in units of 1/(16 D)"""
    if not v > 0:
        return -BIG
    if math.isinf(v):
        return BIG
    return round(16 * D(p) * math.log2(v))


def val(lq):
    return 0.0 if lq == -BIG else math.inf if lq == BIG else 2.0 ** (lq / 4)


def make(name, g, p, cfg, base):
    kw = {"base": base} if base is not None else {}
    if name == "direct":
        ex = dict(zip(["alpha", "beta", "gamma", "a", "b"], [v / 8 for v in g]))
        if base is not None:
            return ErrorControllerDecorator(error_controller=base, **ex)
        return ErrorController(config=cfg, **ex)
    f = getattr(ec, name)
    e = [v / 8 for v in g]
    if name == "h_312_general":
        return f(p, var_alpha=e[0], a=e[1], b=e[2], config=cfg, **kw)
    if name == "h_321_general":
        return f(p, var_alpha=e[0], var_beta=e[1], a=e[2], config=cfg, **kw)
    if name == "h_330_general":
        return f(p, var_alpha=e[0], var_beta=e[1], var_gamma=e[2], config=cfg, **kw)
    return f(p=p, config=cfg, **kw)


def free(rng, name):
    n = {"direct": 5}.get(name, 3)
    return [rng.randint(-12, 12) for _ in range(n)]


def rand_chain(rng, n, p, tame=False):
    names = [rng.choice(NAMES + GENERAL + ["direct", "direct"]) for _ in range(n)]
    gs = [free(rng, nm) for nm in names]
    return names, gs


def rand_cf(rng):
    lt = 4 * rng.choice([rng.randint(-6, 2), rng.randint(-6, 2),
                         rng.randint(-60, -10), rng.randint(3, 12)])
    lb = rng.choice([-BIG, 4 * rng.randint(-9, -4)])
    ub = rng.choice([BIG, 4 * rng.randint(0, 3)])
    sf = rng.choice([1.0, 1.0, 0.95, 0.5, 0.9])
    return {"lt": lt, "lb": lb, "ub": ub, "max": rng.randint(0, 3)}, sf


def config(cf, sf):
    return ErrorControllerConfig(val(cf["lt"]), val(cf["lb"]), val(cf["ub"]), sf,
                                 cf["max"])


def rand_remaining(rng, h):
    return rng.choice([math.inf, math.inf, 0.0, h * rng.choice([0.25, 0.5, 1, 2, 3, 8]),
                       -h * rng.choice([0.25, 0.5, 1.0, 2.0]), 2.0**6])


def call(c, r, rem, p):
    """One trial; returns the event (r: logarithms, rem: remaining time)."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        eh = np.array([val(r["e0"]), val(r["e1"])])
        sh = np.array([0.0 if v == BIG else val(v) for v in (r["s0"], r["s1"])])
        h = val(r["lh"])
        keep = eh.copy(), sh.copy()
        e = {"op": "trial", "err": 0, "acc": 0, "u": 0}
        try:
            s = c(error_measure=val(r["le"]), delta_t=h, remaining_time=rem,
                  error_history=eh, step_size_history=sh)
            e["acc"] = int(bool(s.acceptance))
            e["u"] = units(float(s.step_size_suggestion), p)
        except ErrorControllerError:
            e["err"] = 1
        assert np.array_equal(keep[0], eh) and np.array_equal(keep[1], sh)
    r = dict(r, ur=units(rem, p), urh=units(rem + h, p))
    e["r"] = r
    return e


def rand_r(rng, cf, lh=None):
    lh = 4 * rng.randint(-9, 3) if lh is None else lh
    if rng.random() < 0.15 and cf["lb"] != -BIG:
        lh = cf["lb"]
    le = rng.choice([-BIG, cf["lt"]] + [cf["lt"] + 4 * rng.randint(-6, 6)
                                        for _ in range(10)])
    if rng.random() < 0.2:  # far from the tolerance
        le = cf["lt"] + 4 * rng.choice([rng.randint(-80, -20), rng.randint(10, 50)])
    past = rng.choice([0, 1, 2, 2])

    def old():
        return cf["lt"] - 4 * (rng.randint(20, 60) if rng.random() < 0.15
                               else rng.randint(0, 6))
    return {"le": le, "lh": lh,
            "e0": cf["lt"] if past < 1 else old(),
            "e1": cf["lt"] if past < 2 else old(),
            "s0": BIG if past < 1 else 4 * rng.randint(-8, 3),
            "s1": BIG if past < 2 else 4 * rng.randint(-8, 3)}


def trace(names, gs, p, cf, sf, ev):
    return {"names": names, "g": gs, "p": p, "cf": dict(cf, usf=units(sf, p)), "ev": ev}
