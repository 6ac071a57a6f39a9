"""C01: primal recursion."""
import random

from adapt import adaptive_rk
from rig import dyadic
from scen import Conf, ev_run, ev_set, proj

TRACE_SPEC = "TraceRK"
COUNT = {"quick": 600, "thorough": 12000}


def scenarios(tier, seed):
    return [{"s": seed * 1000003 + i, "i": i} for i in range(COUNT[tier])]


def run(sc):
    rng = random.Random(sc["s"])
    if sc["i"] % 5 == 4:
        cp = rng.choice(["all", "none", "pyrevolve"])
        return [adaptive_rk(rng, ["set", "run", "set", "run"], cp)]
    c = Conf(rng, max_n=16 if sc["i"] % 9 == 0 else 6, embedded=rng.random() < 0.3)
    if sc["i"] % 10 == 7:  # backwards in time
        c.h = -c.h
    cp = rng.choice(["all", "all", "none", "pyrevolve"])
    r = c.rig(checkpointing=cp)
    ev = []
    for _ in range(rng.choice([1, 2])):
        x, u, t = c.point(rng)
        r.set_inputs(x, u, t)
        r.rec.evals.clear()
        out = r.run()
        ev += [ev_set(x, u, t), ev_run(r, out)]
    return [{**c.json(), "N": c.n_steps, "h": proj(c.h), "ev": ev}]
