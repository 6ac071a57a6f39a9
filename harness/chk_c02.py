"""C02: forward products."""
import random

from adapt import adaptive_rk
from scen import Conf, ev_fwd, ev_run, ev_set, proj

TRACE_SPEC = "TraceRK"
COUNT = {"quick": 500, "thorough": 10000}


def scenarios(tier, seed):
    return [{"s": seed * 1000003 + i, "i": i} for i in range(COUNT[tier])]


def run(sc):
    rng = random.Random(sc["s"])
    if sc["i"] % 5 == 4:
        cp = rng.choice(["all", "none", "pyrevolve"])
        return [adaptive_rk(rng, ["set", "run", "fwd", "fwd"], cp)]
    c = Conf(rng, max_n=16 if sc["i"] % 9 == 0 else 6, embedded=rng.random() < 0.3,
             rest=sc["i"] % 12 == 5)
    if sc["i"] % 10 == 7:  # backwards in time
        c.h = -c.h
    r = c.rig(checkpointing=rng.choice(["all", "all", "none", "pyrevolve"]))
    x, u, t = c.point(rng)
    r.set_inputs(x, u, t)
    ev = [ev_set(x, u, t), ev_run(r, r.run())]
    for _ in range(2):
        d = c.direction(rng)
        ev.append(ev_fwd(d, r.fwd(*d)))
    return [{**c.json(), "N": c.n_steps, "h": proj(c.h), "ev": ev}]
