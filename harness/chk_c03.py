"""C03: reverse products."""
import random

from adapt import adaptive_rk
from scen import Conf, ev_rev, ev_run, ev_set, proj

TRACE_SPEC = "TraceRK"
COUNT = {"quick": 500, "thorough": 10000}


def scenarios(tier, seed):
    return [{"s": seed * 1000003 + i, "i": i} for i in range(COUNT[tier])]


def run(sc):
    rng = random.Random(sc["s"])
    if sc["i"] % 5 == 4:
        cp = rng.choice(["all", "pyrevolve"])
        return [adaptive_rk(rng, ["set", "run", "rev", "run", "rev"], cp)]
    c = Conf(rng, max_n=16 if sc["i"] % 9 == 0 else 6, embedded=rng.random() < 0.3,
             rest=sc["i"] % 12 == 5)
    if sc["i"] % 10 == 7:  # backwards in time
        c.h = -c.h
    r = c.rig(checkpointing=rng.choice(["all", "all", "pyrevolve"]))
    x, u, t = c.point(rng)
    r.set_inputs(x, u, t)
    ev = [ev_set(x, u, t)]
    for _ in range(2):
        r.rec.evals.clear()
        b = c.seed(rng)
        ev.append(ev_run(r, r.run()))
        ev.append(ev_rev(b, r.rev(*b)))
    return [{**c.json(), "N": c.n_steps, "h": proj(c.h), "ev": ev}]
