"""C20: stage helper components and the exchange of step size and diagonal entry."""
import random

import numpy as np
import openmdao.api as om

from rig import (IntegrationConfig, PredefinedNumberOfSteps, RungeKuttaIntegrator,
                 dyadic, make_tableau, quiet)
from rkopenmdao.components import ExplicitUnsteadyComponent, ImplicitUnsteadyComponent
from rkopenmdao.discretized_ode.discretized_ode import (DiscretizedODEInputState,
                                                        DiscretizedODEResultState)
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.utils.utility_components import (StageUpdateComponent,
                                                 StageValueComponent)
from zp import P, proj, projv

COUNT = {"quick": 1200, "thorough": 12000}
SHAPES = [(1,), (2,), (3,), (2, 2), (1, 2)]
HS = [0.5, 0.25, 1.0, 2.0, 4.0, 0.125]
AS = [0.5, 0.25, 1.0, 2.0, -0.5, -1.0, 0.125]


def scenarios(tier, seed):
    return [{"s": f"{seed}/{i}"} for i in range(COUNT[tier])]


class Note:
    """Mixin of the probes: notes which step size and factor they see."""

    def note(self):
        x = self.om_data_exchange
        self.options["seen"].append((self.pathname, proj(x.step_size),
                                     proj(x.stage_factor)))


class Slope(ExplicitUnsteadyComponent, Note):
    """k = c + old + 2 acc."""

    def initialize(self):
        for o in ("shape", "tags", "seen", "c"):
            self.options.declare(o)

    def setup(self):
        sh = self.options["shape"]
        self.add_input("old", shape=sh)
        self.add_input("acc", shape=sh)
        self.add_output("k", shape=sh, tags=self.options["tags"])

    def compute(self, inputs, outputs):
        self.note()
        outputs["k"] = self.options["c"] + inputs["old"] + 2 * inputs["acc"]

    def compute_jacvec_product(self, inputs, d_in, d_out, mode):
        self.note()
        if "k" not in d_out:
            return
        for n, f in (("old", 1.0), ("acc", 2.0)):
            if n in d_in:
                if mode == "fwd":
                    d_out["k"] += f * d_in[n]
                else:
                    d_in[n] += f * d_out["k"]


class Source(ImplicitUnsteadyComponent, Note):
    """x = c + 2 y, as an implicit component."""

    def initialize(self):
        for o in ("shape", "seen", "c", "use"):
            self.options.declare(o)

    def setup(self):
        sh = self.options["shape"]
        if self.options["use"]:
            self.add_input("y", shape=sh)
        self.add_output("x", shape=sh)

    def _y(self, vec):
        return 2 * vec["y"] if self.options["use"] and "y" in vec else 0.0

    def apply_nonlinear(self, inputs, outputs, residuals):
        residuals["x"] = outputs["x"] - self.options["c"] - self._y(inputs)

    def solve_nonlinear(self, inputs, outputs):
        self.note()
        outputs["x"] = self.options["c"] + self._y(inputs)

    def apply_linear(self, inputs, outputs, d_in, d_out, d_res, mode):
        self.note()
        if "x" not in d_res:
            return
        if mode == "fwd":
            if "x" in d_out:
                d_res["x"] += d_out["x"]
            d_res["x"] -= self._y(d_in)
        else:
            if "x" in d_out:
                d_out["x"] += d_res["x"]
            if self.options["use"] and "y" in d_in:
                d_in["y"] -= 2 * d_res["x"]

    def solve_linear(self, d_out, d_res, mode):
        self.note()
        if mode == "fwd":
            d_out["x"] = d_res["x"]
        else:
            d_res["x"] = d_out["x"]


def grand(rng, shape):
    return np.array([dyadic(rng) for _ in range(int(np.prod(shape)))]).reshape(shape)


class World:
    def __init__(self, rng):
        self.rng = rng
        self.seen = []
        self.prob = om.Problem(reports=False)
        model = self.prob.model
        groups = [("", model)]
        for i in range(rng.choice([0, 1, 2, 3])):
            pre, g = rng.choice(groups)
            groups.append((pre + f"g{i}.", g.add_subsystem(f"g{i}", om.Group())))
        self.probes = []
        self.helpers = []  # (kind, comp path, [(q, names...)])
        nq = rng.choice([1, 2, 3])
        self.qs = rng.sample(["xa", "xb", "xc", "xd"], nq)
        conn = []
        pool = []    # stage values usable as y
        ivc = om.IndepVarComp()
        upd = []
        deferred = []

        def add(name, comp, where=None):
            pre, g = where or rng.choice(groups)
            deferred.append((g, name, comp))
            return pre + name

        shape = {}
        self.order = []
        for q in self.qs:
            sh = shape[q] = rng.choice(SHAPES)
            if rng.random() < 0.5:
                s = add("slope_" + q, Slope(shape=sh, tags=[q, "stage_output_var"],
                                            seen=self.seen, c=grand(rng, sh)))
                self.probes.append(s)
                tagged = rng.random() < 0.6
                v = add("value_" + q, StageValueComponent(tag=q if tagged else None))
                conn.append((s + ".k", v + ".stage_slope"))
                ivc.add_output(q + "_old", shape=sh)
                ivc.add_output(q + "_acc", shape=sh)
                if not tagged:  # another component carries the tags
                    r = add("relay_" + q, Relay(shape=sh, q=q))
                    conn += [(f"ivc.{q}_old", r + ".o"), (f"ivc.{q}_acc", r + ".a")]
                conn += [(f"ivc.{q}_old", s + ".old"), (f"ivc.{q}_acc", s + ".acc"),
                         (f"ivc.{q}_old", v + ".old_value"),
                         (f"ivc.{q}_acc", v + ".acc_stages")]
                self.helpers.append(("value", v, [
                    (q, v + ".old_value", v + ".acc_stages", v + ".stage_slope",
                     v + ".stage_value", f"ivc.{q}_old", f"ivc.{q}_acc")]))
                pool.append((v + ".stage_value", sh))
            else:
                fits = [p for p, s2 in pool if s2 == sh]
                use = bool(fits) and rng.random() < 0.7
                s = add("source_" + q, Source(shape=sh, seen=self.seen, use=use,
                                              c=grand(rng, sh)))
                self.probes.append(s)
                if use:
                    conn.append((rng.choice(fits), s + ".y"))
                upd.append((q, s, sh))
        while upd:
            n = rng.randint(1, len(upd))
            part, upd = upd[:n], upd[n:]
            u = add(f"upd{len(upd)}", StageUpdateComponent(
                quantity_list=[q for q, _, _ in part]))
            recs = []
            for q, s, sh in part:
                conn.append((s + ".x", f"{u}.{q}"))
                ivc.add_output(q + "_old", shape=sh)
                ivc.add_output(q + "_acc", shape=sh)
                conn += [(f"ivc.{q}_old", f"{u}.{q}_old"),
                         (f"ivc.{q}_acc", f"{u}.{q}_acc_stages")]
                recs.append((q, f"{u}.{q}_old", f"{u}.{q}_acc_stages", f"{u}.{q}",
                             f"{u}.{q}_update", f"ivc.{q}_old", f"ivc.{q}_acc"))
            self.helpers.append(("update", u, recs))
        model.add_subsystem("ivc", ivc)
        for g, name, comp in deferred:
            g.add_subsystem(name, comp)
        # an unsteady component that belongs to no time integration
        self.bystander = Slope(shape=(1,), tags=[], seen=[], c=0.0)
        for a, b in conn:
            model.connect(a, b)
        model.nonlinear_solver = om.NonlinearBlockGS(maxiter=30, iprint=-1, atol=1e-30,
                                                     rtol=1e-30)
        for pre, g in groups:
            g.nonlinear_solver = om.NonlinearBlockGS(maxiter=30, iprint=-1, atol=1e-30,
                                                     rtol=1e-30)
            g.linear_solver = om.LinearBlockGS(maxiter=30, iprint=-1, atol=1e-30,
                                               rtol=1e-30)
        self.shape = shape
        self.ode = None

    def attach(self):
        names = list(self.qs)
        self.rng.shuffle(names)
        with quiet():
            if self.rng.random() < 0.3:
                tab = {"s": 1, "A": [[0.5]], "b": [1.0], "c": [0.5], "bh": None}
                rk = RungeKuttaIntegrator(
                    time_stage_problem=self.prob, butcher_tableau=make_tableau(tab),
                    integration_config=IntegrationConfig(
                        False, PredefinedNumberOfSteps(1), 1.0),
                    time_integration_quantities=names)
                outer = om.Problem(reports=False)
                outer.model.add_subsystem("rk", rk)
                outer.setup()
                outer.final_setup()
                self.outer = outer
                if self.rng.random() < 0.5:
                    outer.setup()
                    outer.final_setup()
                outer.run_model()
                self.ode = OpenMDAOODE(self.prob, names)
            else:
                self.prob.setup()
                self.prob.final_setup()
                self.ode = OpenMDAOODE(self.prob, names)
        self.names = names
        self.lin = None
        return {"op": "attach"}

    def factors(self):
        h, a = self.rng.choice(HS), self.rng.choice(AS)
        return h, a

    def state(self):
        n = self.ode.get_state_size()
        return np.array([dyadic(self.rng) for _ in range(n)])

    def seen_ev(self, h, a):
        s = [[b, c] for _, b, c in self.seen]
        n = len({p for p, _, _ in self.seen})
        self.seen.clear()
        return {"h": proj(h), "a": proj(a), "seen": s, "nseen": n}

    def update(self):
        h, a = self.factors()
        x, acc = self.state(), self.state()
        self.seen.clear()
        with quiet():
            res = self.ode.compute_update(
                DiscretizedODEInputState(x, acc, np.zeros(0), 0.5), h, a)
        self.lin, self.ha = res.linearization_point, (h, a)
        r = []
        for kind, _, recs in self.helpers:
            for q, old, ac, inp, out, *_ in recs:
                g = [projv(self.prob.get_val(v)) for v in (old, ac, inp, out)]
                r.append(self.rec(kind, g))
        by = self.bystander.om_data_exchange
        return {"op": "update", "r": r, **self.seen_ev(h, a),
                "bystander": [proj(by.step_size), proj(by.stage_factor)]}

    @staticmethod
    def rec(kind, g):
        old, acc, inp, out = g
        if kind == "value":
            return {"kind": kind, "old": old, "acc": acc, "k": inp, "v": out}
        return {"kind": kind, "old": old, "acc": acc, "k": out, "v": inp}

    def tangent(self):
        if self.lin is None:
            return self.update()
        h, a = self.factors() if self.rng.random() < 0.5 else self.ha
        self.seen.clear()
        x, acc = self.state(), self.state()
        with quiet():
            self.dres = self.ode.compute_update_derivative(
                DiscretizedODEInputState(x, acc, np.zeros(0), 0.0, self.lin), h, a)
        self.din = np.concatenate([x, acc])
        self.dha = (h, a)
        _, d_out, _ = self.prob.model.get_linear_vectors()
        r = []
        for kind, _, recs in self.helpers:
            for q, _, _, inp, out, so, sa in recs:
                src = self.prob.model.get_source(inp)
                r.append(self.rec(kind, [projv(d_out[v]) for v in (so, sa, src, out)]))
        return {"op": "tangent", "r": r, **self.seen_ev(h, a)}

    def adjoint(self):
        if self.lin is None or getattr(self, "dres", None) is None or self.stale:
            self.stale = False
            return self.tangent()
        h, a = self.dha
        b = self.state()
        self.seen.clear()
        with quiet():
            g = self.ode.compute_update_adjoint_derivative(
                DiscretizedODEResultState(b, np.zeros_like(b), np.zeros(0), self.lin),
                h, a)
        lhs = float(b @ self.dres.stage_update)
        rhs = float(np.concatenate([g.step_input, g.stage_input]) @ self.din)
        return {"op": "adjoint", "lhs": proj(lhs), "rhs": proj(rhs),
                **self.seen_ev(h, a)}

    def prod(self):
        if self.lin is None:
            return self.update()
        rng = self.rng
        kind, path, recs = rng.choice(self.helpers)
        comp = self.prob.model._get_subsystem(path)
        inputs, _, _ = comp.get_nonlinear_vectors()
        d_in, d_out, _ = comp.get_linear_vectors()
        mode = rng.choice(["fwd", "rev"])
        full = rng.random() < 0.3
        loc = [[n[len(path) + 1:] for n in rec[1:5]] for rec in recs]
        before, scopes = [], []
        for old, acc, inp, out in loc:
            for vec, n in ((d_in, inp), (d_in, old), (d_in, acc), (d_out, out)):
                sh = vec[n].shape
                vec[n] = grand(rng, sh)
            before.append([projv(d_in[inp]), projv(d_in[old]), projv(d_in[acc]),
                           projv(d_out[out])])
            scopes.append([int(full or rng.random() < 0.65) for _ in range(4)])
        keep = d_in._names, d_out._names
        si, so = set(), set()
        for (old, acc, inp, out), s in zip(loc, scopes):
            si |= {f"{path}.{n}" for n, f in zip((inp, old, acc), s) if f}
            so |= {f"{path}.{out}"} if s[3] else set()
        try:
            d_in._names, d_out._names = si, so
            comp.compute_jacvec_product(inputs, d_in, d_out, mode)
        finally:
            d_in._names, d_out._names = keep
        q = []
        for (old, acc, inp, out), s, b in zip(loc, scopes, before):
            q.append({"s": s, "in0": b[0], "old0": b[1], "acc0": b[2], "out0": b[3],
                      "in1": projv(d_in[inp]), "old1": projv(d_in[old]),
                      "acc1": projv(d_in[acc]), "out1": projv(d_out[out])})
        d_in.set_val(0.0)
        d_out.set_val(0.0)
        return {"op": "prod", "kind": kind, "mode": mode, "q": q}


class Relay(om.ExplicitComponent):
    """Only carries tags."""

    def initialize(self):
        self.options.declare("shape")
        self.options.declare("q")

    def setup(self):
        sh, q = self.options["shape"], self.options["q"]
        self.add_input("o", shape=sh, tags=[q, "step_input_var"])
        self.add_input("a", shape=sh, tags=[q, "accumulated_stage_var"])

    def compute(self, inputs, outputs):
        pass


def run(sc):
    rng = random.Random(sc["s"])
    w = World(rng)
    w.stale = False
    ev = [w.attach()]
    for _ in range(rng.choice([6, 10])):
        op = rng.choice(["update", "update", "tangent", "tangent", "adjoint", "prod",
                         "prod", "prod"] + (["attach"] if rng.random() < 0.5 else []))
        if op == "attach":
            w.dres = None
        ev.append(getattr(w, op)())
    by = w.bystander.om_data_exchange
    return [{"ev": ev, "nprobes": len(w.probes),
             "bystander": [proj(1.0e-3), proj(1.0)]}]
