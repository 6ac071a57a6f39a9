"""C18: the discretization scheme with ODEs of its own kind."""
import copy
import random

import numpy as np

from rig import dyadic, make_tableau, random_tableau, tab_json
from rkopenmdao.discretized_ode.discretized_ode import (
    DiscretizedODE, DiscretizedODEInputState, DiscretizedODEResultState)
from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
    StageOrderedEmbeddedRungeKuttaDiscretization, StageOrderedRungeKuttaDiscretization)
from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationFinalizationValues, TimeDiscretizationStartingValues)
from zp import P, Ode, proj, projv

COUNT = {"quick": 500, "thorough": 9000}


def scenarios(tier, seed):
    return [{"s": f"{seed}/{i}"} for i in range(COUNT[tier])]


class ZpODE(DiscretizedODE):
    """Quadratic stage update, stage state x + h (acc + a k), linear outputs."""

    def __init__(self, rng, n, m, q):
        self.n, self.m, self.q = n, m, q
        self.f = Ode.random(rng, n, m, [1] * (2 * n + m + 3))
        self.G = [[rng.randrange(P) for _ in range(self.f.nz)] for _ in range(q)]
        self.kind = rng.choice(["z", "code", "key"])
        self.seen = {}
        self.buf = np.zeros(n) if rng.random() < 0.4 else None

    # what is stored as linearization point is the ODE's own business
    def _encode(self, z):
        if self.kind == "z":
            return np.array(z, dtype=float)
        if self.kind == "code":
            return np.array([P - v for v in reversed(z)] + [17.0], dtype=float)
        self.seen[len(self.seen) + 1.0] = z
        return np.array([float(len(self.seen))])

    def _decode(self, lp):
        if self.kind == "z":
            return projv(lp)
        if self.kind == "code":
            return [(P - v) % P for v in reversed(projv(lp)[:-1])]
        return self.seen[float(lp[0])]

    def get_linearization_point_size(self):
        return {"z": self.f.nz, "code": self.f.nz + 1, "key": 1}[self.kind]

    def get_state_size(self):
        return self.n

    def get_independent_input_size(self):
        return self.m

    def get_independent_output_size(self):
        return self.q

    def compute_state_norm(self, state):
        return float(np.linalg.norm(state.stage_state))

    def _out(self, k, s, g, lp=None):
        k = np.array(k, dtype=float)
        if self.buf is not None:  # results live in a buffer that is used again
            self.buf[:] = k
            k = self.buf
        return DiscretizedODEResultState(k, np.array(s, dtype=float),
                                         np.array(g, dtype=float), lp)

    def compute_update(self, i, step_size, stage_factor):
        h, a = proj(step_size), proj(stage_factor)
        x, acc = projv(i.step_input), projv(i.stage_input)
        z = x + acc + [proj(i.time)] + projv(i.independent_input) + [h, a]
        k = self.f.f(z)
        s = [(xi + h * (ai + a * ki)) % P for xi, ai, ki in zip(x, acc, k)]
        g = [sum(c * v for c, v in zip(r, z)) % P for r in self.G]
        return self._out(k, s, g, self._encode(z))

    def _jac(self, i, step_size, stage_factor):
        h, a = proj(step_size), proj(stage_factor)
        z = self._decode(i.linearization_point)[:-2] + [h, a]
        return [self.f.jrow(j, z) for j in range(self.n)], h, a

    def compute_update_derivative(self, i, step_size, stage_factor):
        J, h, a = self._jac(i, step_size, stage_factor)
        dx, dacc = projv(i.step_input), projv(i.stage_input)
        dz = dx + dacc + [proj(i.time)] + projv(i.independent_input) + [0, 0]
        dk = []
        for j in range(self.n):
            dk.append((sum(c * v for c, v in zip(J[j], dz))
                       + sum(self.f.L[j][l] * dk[l] for l in range(j))) % P)
        s = [(xi + h * (ai + a * ki)) % P for xi, ai, ki in zip(dx, dacc, dk)]
        g = [sum(c * v for c, v in zip(r, dz)) % P for r in self.G]
        return self._out(dk, s, g)

    def compute_update_adjoint_derivative(self, r, step_size, stage_factor):
        J, h, a = self._jac(r, step_size, stage_factor)
        n = self.n
        bs, bg = projv(r.stage_state), projv(r.independent_output)
        bk = [(b + h * a * c) % P for b, c in zip(projv(r.stage_update), bs)]
        bz = [0] * self.f.nz
        for j in reversed(range(n)):
            for i in range(self.f.nz):
                bz[i] += J[j][i] * bk[j]
            for l in range(j):
                bk[l] = (bk[l] + self.f.L[j][l] * bk[j]) % P
        for i in range(n):
            bz[i] += bs[i]
            bz[n + i] += h * bs[i]
        for b, row in zip(bg, self.G):
            for i in range(self.f.nz):
                bz[i] += row[i] * b
        bz = [float(v % P) for v in bz]
        return DiscretizedODEInputState(
            np.array(bz[:n]), np.array(bz[n:2 * n]),
            np.array(bz[2 * n + 1:2 * n + 1 + self.m]), bz[2 * n])


def one(v):
    return proj(np.asarray(v, dtype=float).ravel()[0])


def rows(a):
    return [projv(r) for r in a]


class Lane:
    def __init__(self, idx, rng, scheme, tab):
        self.idx, self.rng, self.scheme, self.tab = idx, rng, scheme, tab
        self.n, self.m = rng.choice([1, 2, 3]), rng.choice([0, 1, 2])
        self.q = rng.choice([0, 0, 1, 3])
        self.ode = ZpODE(rng, self.n, self.m, self.q)
        self.state = self.given = self.dgiven = self.bgiven = None
        self.kept = []
        self.hs = []
        self.d = self.b = None
        self.at = None     # next step of the reverse sweep
        self.dk = 0

    def vals(self):
        r = self.rng
        return (dyadic(r), np.array([dyadic(r) for _ in range(self.n)]),
                np.array([dyadic(r) for _ in range(self.m)]))

    def ev(self, op, **kw):
        return {"op": op, "lane": self.idx + 1, **kw}

    def point(self, st):
        return {"x1": projv(st.final_state), "t1": one(st.final_time),
                "u1": projv(st.independent_inputs)}

    def start(self):
        if self.given is None or self.rng.random() < 0.5:
            self.given = self.vals()
            t, x, u = self.given
            self.start_values = TimeDiscretizationStartingValues(t, x.copy(), u.copy())
        t, x, u = self.given  # from the same starting values again otherwise
        self.state = self.scheme.time_discretization_starting_scheme(
            self.ode, self.start_values, 0.5)
        self.kept, self.hs, self.d, self.b, self.at = [], [], None, None, None
        return self.ev("start", x=projv(x), t=proj(t), u=projv(u),
                       **self.point(self.state))

    def step(self):
        h = self.rng.choice([0.5, 0.25, 1.0, -0.5, 2.0])
        st = self.scheme.compute_step(self.ode, self.state, h)
        self.state = st
        self.hs.append(h)
        self.kept.append(self.keep(st))
        emb = self.tab["bh"] is not None
        return self.ev("step", h=proj(h), x0=projv(st.start_state),
                       t0=one(st.start_time), K=rows(st.stage_updates),
                       T=projv(st.stage_times), S=rows(st.stage_states),
                       G=rows(st.stage_independent_outputs), h1=one(st.step_size),
                       xe=projv(st.embedded_state) if emb else [],
                       er=projv(st.error_estimate) if emb else [], **self.point(st))

    def keep(self, st):
        how = self.rng.choice(["deep", "set", "dict"])
        if how == "deep":
            return copy.deepcopy(st)
        if how == "dict":
            return type(st).from_dict(copy.deepcopy(st.to_dict()))
        new = self.scheme.create_empty_discretization_state(self.ode)
        new.set(st)
        return new

    def fin(self):
        v = self.scheme.time_discretization_finalization_scheme(
            self.ode, self.state, 0.5)
        return self.ev("fin", x=projv(v.final_values), t=one(v.final_time))

    def dstart(self):
        if self.dgiven is None or self.rng.random() < 0.6:
            self.dgiven = self.vals()
            t, x, u = self.dgiven
            self.dvalues = TimeDiscretizationStartingValues(t, x.copy(), u.copy())
        t, x, u = self.dgiven
        s0 = TimeDiscretizationStartingValues(*self.vals())
        self.d = self.scheme.time_discretization_starting_scheme_derivative(
            self.ode, s0, self.dvalues, 0.5)
        self.dk = 0
        return self.ev("dstart", x=projv(x), t=proj(t), u=projv(u),
                       **self.point(self.d))

    def dstep(self):
        k = self.dk
        self.dk += 1
        self.d = d = self.scheme.compute_step_derivative(
            self.ode, self.kept[k], self.d, self.hs[k])
        return self.ev("dstep", k=k + 1, K=rows(d.stage_updates),
                       S=rows(d.stage_states), G=rows(d.stage_independent_outputs),
                       **self.point(d))

    def dfin(self):
        v = self.scheme.time_discretization_finalization_scheme_derivative(
            self.ode, self.state, self.d, 0.5)
        return self.ev("dfin", x=projv(v.final_values), t=one(v.final_time))

    def bfin(self):
        if self.bgiven is None or self.rng.random() < 0.6:
            self.bgiven = self.vals()[:2]
            t, x = self.bgiven
            self.bvalues = TimeDiscretizationFinalizationValues(
                t, x.copy(), np.zeros(self.q))
        t, x = self.bgiven
        if self.b is not None and self.rng.random() < 0.4:  # used again by hand
            self.b.final_state[:] = x
            self.b.final_time[0] = t
            self.b.independent_inputs[:] = 0.0
            self.b.final_independent_outputs[:] = 0.0
        else:
            self.b = (self.scheme
                      .time_discretization_finalization_scheme_adjoint_derivative(
                          self.ode, self.state, self.bvalues, 0.5))
        self.at = len(self.kept)
        return self.ev("bfin", x=projv(x), t=proj(t), **self.point(self.b))

    def bstep(self):
        self.at -= 1
        k = self.at
        self.b = self.scheme.compute_step_adjoint_derivative(
            self.ode, self.kept[k], self.b, self.hs[k])
        return self.ev("bstep", k=k + 1, **self.point(self.b))

    def bstart(self):
        v = self.scheme.time_discretization_starting_scheme_adjoint_derivative(
            self.ode, TimeDiscretizationStartingValues(*self.vals()), self.b, 0.5)
        return self.ev("bstart", x=projv(v.initial_values), t=one(v.initial_time),
                       u=projv(v.independent_inputs))

    def enabled(self):
        if self.state is None:
            return ["start"]
        r = ["fin", "dstart", "dstart", "bfin", "bfin"]
        if len(self.kept) < 4:
            r += ["step"] * 4
        if self.rng.random() < 0.15:
            r.append("start")
        if self.d is not None:
            r.append("dfin")
            if self.dk < len(self.kept):
                r += ["dstep"] * 4
        if self.at is not None:
            r.append("bstart")
            if self.at > 0:
                r += ["bstep"] * 4
        return r


def run(sc):
    rng = random.Random(sc["s"])
    emb = rng.random() < 0.5
    tab = random_tableau(rng, s=rng.choice([1, 2, 2, 3, 4]), embedded=emb)
    cls = (StageOrderedEmbeddedRungeKuttaDiscretization
           if emb else StageOrderedRungeKuttaDiscretization)
    scheme = cls(make_tableau(tab))
    lanes = [Lane(i, rng, scheme, tab) for i in range(rng.choice([1, 1, 2]))]
    ev = []
    for _ in range(rng.choice([8, 14, 22])):
        ln = rng.choice(lanes)
        ev.append(getattr(ln, rng.choice(ln.enabled()))())
    return [{"ev": ev, "lanes": [
        {"o": ln.ode.f.as_json(), "tb": tab_json(tab), "G": ln.ode.G} for ln in lanes]}]
