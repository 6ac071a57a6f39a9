"""Random scenario configurations, derived from one integer each."""
from __future__ import annotations

import random

import rig
import zp
from rig import Rig, dyadic, random_tableau, tab_json, whole
from zp import Ode, make_layout, proj, projv

SHAPES = [(1,), (1,), (2,), (2,), (3,), (2, 2), (1, 2), (2, 1), (2, 1, 2), (4,)]
STEPS = [0.5, 0.25, 1.0, 0.125, 2.0, 0.0625, 0.375, 0.75, 1.5]


def rand_layout(rng, max_q=3, max_p=2, allow_bare=True, time=0.7):
    nq = rng.choice([1, 1, 2, 2, 3, 3, 4][: 2 * max_q])
    qs = []
    names = rng.sample(["qa", "qb", "qc", "qd", "qe"], nq)
    for i, nm in enumerate(names):
        full = True if i == 0 and not allow_bare else rng.random() < 0.75
        qs.append((nm, rng.choice(SHAPES), full))
    if not any(q[2] for q in qs) and rng.random() < 0.8:
        qs[0] = (qs[0][0], qs[0][1], True)
    ps = []
    for nm in rng.sample(["pa", "pb", "pc"], rng.choice([0, 1, 1, 2][: 2 + max_p])):
        ps.append((nm, rng.choice(SHAPES[:7])))
    has_time = rng.random() < time
    return make_layout(qs, ps, has_time, nq > 1 and rng.random() < 0.5)


class Conf:
    """One random stage model, tableau and integration setting."""

    def __init__(self, rng: random.Random, *, embedded=False, max_n=6, tab=None,
                 lay=None, n_steps=None, h=None, rest=False):
        self.lay = lay or rand_layout(rng, time=0.0 if rest else 0.7)
        self.rest = rest
        self.ode = Ode.random(rng, self.lay["n"], self.lay["m"], self.lay["mask"],
                              rest=rest)
        self.tab = tab or random_tableau(rng, s=rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 8]),
                                         embedded=embedded)
        self.n_steps = n_steps or rng.randint(1, max_n)
        if not n_steps and max_n == 6 and len(self.tab["b"]) < 4 and (
                rng.random() < 0.06):
            self.n_steps = rng.choice([10, 11, 13, 20, 33])
        self.h = h or rng.choice(STEPS)
        self.ivc = rng.random() < 0.3
        if rng.random() < 0.3:
            self.lay = dict(self.lay, refs=rng.randrange(1, 1 << 20))
        self.ints = rng.random() < 0.3
        self.nest = rng.random() < 0.25
        self.fixing = rng.random() < 0.4
        names = [q["name"] for q in self.lay["quantities"]]
        self.order = rng.sample(names, len(names))
        self.n_callbacks = rng.choice([1, 1, 1, 2, 0])

    def rig(self, **kw) -> Rig:
        args = dict(n_steps=self.n_steps, h=self.h, ivc=self.ivc, nest=self.nest,
                    fixing=self.fixing, order=self.order,
                    n_callbacks=self.n_callbacks)
        args.update(kw)
        if self.ints:
            args["h"] = whole(args["h"])
        if "final_time" in args:
            args.pop("n_steps", None)
        return Rig(self.ode, self.lay, self.tab, **args)

    def json(self):
        return {"o": self.ode.as_json(), "tb": tab_json(self.tab)}

    def point(self, rng):
        if self.rest:  # an equilibrium: all stages are the same
            return [0.0] * self.lay["n"], [0.0] * self.lay["m"], dyadic(rng)
        x, u = ([dyadic(rng) for _ in range(self.lay[k])] for k in "nm")
        t = dyadic(rng)
        if rng.random() < 0.4:  # more digits than single precision has
            t += rng.randrange(1, 1 << 12) * 2.0**-34
        return x, u, t

    def direction(self, rng, kind=None):
        """(dx, du, dt); kind restricts which parts are non zero."""
        n, m = self.lay["n"], self.lay["m"]
        kind = kind or rng.choice(["full", "full", "x", "u", "t", "unit"])
        dx = [dyadic(rng, nonzero=True) if kind in ("full", "x") else 0.0
              for _ in range(n)]
        du = [dyadic(rng, nonzero=True) if kind in ("full", "u") else 0.0
              for _ in range(m)]
        dt = dyadic(rng, nonzero=True) if kind in ("full", "t") else 0.0
        if kind == "unit":
            i = rng.randrange(n + m + 1)
            if i < n:
                dx[i] = 1.0
            elif i < n + m:
                du[i - n] = 1.0
            else:
                dt = 1.0
        return dx, du, dt

    def seed(self, rng, kind=None):
        n = self.lay["n"]
        kind = kind or rng.choice(["full", "full", "x", "t", "unit"])
        bx = [dyadic(rng, nonzero=True) if kind in ("full", "x") else 0.0
              for _ in range(n)]
        bt = dyadic(rng, nonzero=True) if kind in ("full", "t") else 0.0
        if kind == "unit":
            i = rng.randrange(n + 1)
            if i < n:
                bx[i] = 1.0
            else:
                bt = 1.0
        return bx, bt


def merge(seq):
    """Consecutive duplicates count once (solvers may evaluate a model repeatedly)."""
    out = []
    for z in seq:
        if not out or out[-1] != z:
            out.append(z)
    return out


def ev_set(x, u, t):
    return {"op": "set", "x": projv(x), "u": projv(u), "t": proj(t)}


def ev_run(r: Rig, out):
    x, t = out
    return {"op": "run", "x": projv(x), "t": proj(t), "ev": merge(r.rec.evals)}


def ev_fwd(d, out):
    return {"op": "fwd", "dx": projv(d[0]), "du": projv(d[1]), "dt": proj(d[2]),
            "x": projv(out[0]), "t": proj(out[1])}


def ev_rev(b, out):
    return {"op": "rev", "bx": projv(b[0]), "bt": proj(b[1]), "x": projv(out[0]),
            "u": projv(out[1]), "t": proj(out[2])}
