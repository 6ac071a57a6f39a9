"""C07: adaptive integration keeps accepted steps only."""
import random

from adapt import Adapt
from rig import random_tableau
from scen import Conf


def scenarios(tier, seed):
    n = 600 if tier == "quick" else 4000
    return [{"s": f"{seed}/{i}", "real": i % 2, "time": int(i % 5 == 4)}
            for i in range(n)]


def run(sc):
    rng = random.Random(sc["s"])
    tab = random_tableau(rng, s=rng.choice([1, 2, 2, 3]), embedded=True)
    c = Conf(rng, tab=tab)
    c.n_callbacks = 1
    n = rng.randint(1, 6)
    bias = rng.choice([20, 40, 60])
    pt = c.point(rng)
    kw = dict(n_steps=n)
    if sc["time"]:
        if sc["real"]:
            return run_time_real(sc, rng, c, pt)
        kw = dict(final_time=pt[2] + rng.choice([0.375, 1.0, 1.5, 2.0, 2.625]))
    a = Adapt(c, rng, real=bool(sc["real"]), seed=sc["s"], bias=bias, **kw)
    return [play(a, c, rng, pt)]


def play(a, c, rng, pt):
    a.set(*pt)
    if a.op("run"):
        a.op("rev", c.seed(rng))
        if rng.random() < 0.7:
            a.op("fwd", c.direction(rng))
        if rng.random() < 0.4:
            a.op("run")
            a.op("rev", c.seed(rng))
    return a.trace()


def run_time_real(sc, rng, c, pt):
    """With an end time only steps that are powers of two are comparable exactly: all
    bounds equal, so that the horizon is a multiple of the step."""
    a = Adapt(c, rng, real=True, seed=sc["s"], bias=0, final_time=pt[2] + 2.0,
              h0=4 * rng.choice([-2, -1]))
    return [play(a, c, rng, pt)]
