"""Rig: an outer OpenMDAO problem holding one integrator over a shadow stage problem,
driven and observed through public interfaces only."""
from __future__ import annotations

import contextlib
import os
import random
import warnings

import numpy as np
import openmdao.api as om

from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from rkopenmdao.callback import Callback
from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer
from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import (
    PyrevolveCheckpointer,
)
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import (
    PredefinedFinalTime,
    PredefinedNumberOfSteps,
)

import zp
from zp import P, proj, projv

CHECKPOINTERS = {
    "all": AllCheckpointer,
    "none": NoCheckpointer,
    "pyrevolve": PyrevolveCheckpointer,
}


def dyadic(rng: random.Random, lo=-8, hi=8, den=4, nonzero=False):
    while True:
        v = rng.randrange(lo * den, hi * den + 1) / den
        if v != 0 or not nonzero:
            return v


def random_tableau(rng: random.Random, s=None, kind=None, embedded=False):
    """Dyadic tableau as plain lists (no order conditions, they are irrelevant)."""
    s = s or rng.choice([1, 2, 2, 3, 3, 4])
    kind = kind or rng.choice(["explicit", "dirk", "esdirk", "sdirk", "mixed"])
    dens = [0.25, 0.5, 0.75, -0.5, 1.0, -0.25, 0.125, 1.5, 0.375]
    A = [[0.0] * s for _ in range(s)]
    g = rng.choice(dens)
    for i in range(s):
        for j in range(i):
            A[i][j] = rng.choice(dens + [0.0])
        if kind == "dirk":
            A[i][i] = rng.choice(dens)
        elif kind == "sdirk":
            A[i][i] = g
        elif kind == "esdirk":
            A[i][i] = 0.0 if i == 0 else g
        elif kind == "mixed":
            A[i][i] = rng.choice(dens + [0.0, 0.0, 0.0])
    c = [sum(row) for row in A]
    if rng.random() < 0.5:
        # stage times need not be the row sums for the recursion to be defined
        c = [rng.choice([0.0, 0.25, 0.5, 0.75, 1.0, 1.25, -0.25]) for _ in range(s)]
    b = [rng.choice(dens) for _ in range(s)]
    if s > 1 and rng.random() < 0.25:
        b = list(A[-1])  # stiffly accurate / FSAL shape
    if s > 1 and rng.random() < 0.2:
        b[rng.randrange(s)] = 0.0
    if all(v == 0 for v in b):
        b[0] = 0.5
    tab = {"A": A, "b": b, "c": c, "s": s, "kind": kind, "bh": None}
    if embedded:
        bh = [rng.choice(dens + [0.0]) for _ in range(s)]
        if bh == b:
            bh[0] += 0.25
        tab["bh"] = bh
        tab["p"], tab["phat"] = rng.sample(range(1, 5), 2)
    return tab


def make_tableau(tab):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = dict(
            butcher_matrix=np.array(tab["A"], dtype=float),
            butcher_weight_vector=np.array(tab["b"], dtype=float),
            butcher_time_stages=np.array(tab["c"], dtype=float),
            p=tab.get("p", 2),
        )
        if tab["bh"] is not None:
            return EmbeddedButcherTableau(
                **kw,
                butcher_adaptive_weights=np.array(tab["bh"], dtype=float),
                phat=tab.get("phat", 1),
            )
        return ButcherTableau(**kw)


def tab_json(tab):
    return {
        "s": tab["s"],
        "A": [projv(r) for r in tab["A"]],
        "b": projv(tab["b"]),
        "c": projv(tab["c"]),
        "bh": projv(tab["bh"]) if tab["bh"] is not None else [0] * tab["s"],
        "emb": 1 if tab["bh"] is not None else 0,
    }


class RecCallback(Callback):
    """Logs what a callback is told, as exact Z_P projections."""

    def __init__(self, log, mode, ident=0, rec=None):
        self.log, self.mode, self.ident, self.rec = log, mode, ident, rec

    def _snap(self, when, iteration, st):
        d = st.discretization_state
        self.log.append(
            {
                "mode": self.mode,
                "id": self.ident,
                "when": when,
                "k": int(iteration),
                "nev": len(self.rec.evals) if self.rec is not None else 0,
                "t0": proj(d.start_time[0]),
                "t1": proj(d.final_time[0]),
                "x0": projv(d.start_state),
                "x1": projv(d.final_state),
                "K": [projv(r) for r in d.stage_updates],
                "T": projv(d.stage_times),
                "h": proj(st.step_size_history[0]),
                "u": projv(d.independent_inputs),
                "obj": (st.step_size_history.tolist(), st.error_history.tolist(),
                        st.step_size_suggestion.tolist()),
                "emb": (
                    projv(d.embedded_state) + projv(d.error_estimate)
                    if hasattr(d, "embedded_state")
                    else []
                ),
            }
        )

    def before_iteration(self, iteration, time_integration_state, ode,
                         discretization_scheme):
        self._snap("before", iteration, time_integration_state)

    def after_iteration(self, iteration, time_integration_state, ode,
                        discretization_scheme):
        self._snap("after", iteration, time_integration_state)


_DEVNULL = open(os.devnull, "w")  # a real descriptor: pyrevolve wants one


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(_DEVNULL), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def whole(v):
    """Numbers users would write as integers are given as such."""
    return int(v) if float(v).is_integer() else v


class Rig:
    def __init__(
        self,
        ode,
        lay,
        tab,
        *,
        n_steps=None,
        final_time=None,
        criterion=None,
        h=0.5,
        checkpointing="all",
        checkpoint_options=None,
        adaptive=False,
        integrator_options=None,
        ivc=False,
        nest=False,
        fixing=False,
        n_callbacks=1,
        order=None,
        rec=None,
        tableau=None,
        extra_callbacks=(),
    ):
        self.ode, self.lay, self.tab = ode, lay, tab
        self.rec = rec or zp.Recorder()
        self.log = []
        self.inner = zp.build_inner(ode, lay, self.rec, ivc=ivc, nest=nest,
                                    fixing=fixing)
        term = criterion or (
            PredefinedNumberOfSteps(n_steps)
            if n_steps is not None
            else PredefinedFinalTime(final_time)
        )
        names = [q["name"] for q in lay["quantities"]]
        kw = dict(
            time_stage_problem=self.inner,
            butcher_tableau=tableau or make_tableau(tab),
            integration_config=IntegrationConfig(adaptive, term, h),
            time_integration_quantities=order or names,
            time_independent_input_quantities=[u["name"] for u in lay["params"]],
            checkpointing_type=CHECKPOINTERS.get(checkpointing, checkpointing),
            checkpoint_options=checkpoint_options or {},
            compute_callbacks=[
                RecCallback(self.log, "run", i, self.rec) for i in range(n_callbacks)
            ] + list(extra_callbacks),
            compute_jacvec_product_fwd_callbacks=[
                RecCallback(self.log, "fwd", i, self.rec) for i in range(n_callbacks)
            ],
            compute_jacvec_product_rev_callbacks=[
                RecCallback(self.log, "rev", i, self.rec) for i in range(n_callbacks)
            ],
        )
        kw.update(integrator_options or {})
        self.comp = RungeKuttaIntegrator(**kw)
        self.prob = om.Problem(reports=False)
        self.prob.model.add_subsystem("rk", self.comp, promotes=["*"])
        with quiet():
            self.prob.setup()
            self.prob.final_setup()
        self.xin = [q["name"] + "_initial" for q in lay["quantities"]]
        self.xout = [q["name"] + "_final" for q in lay["quantities"]]
        self.pin = [u["name"] for u in lay["params"]]
        self.ins = self.xin + self.pin + ["time_initial"]
        self.outs = self.xout + ["time_final"]

    # flat <-> per variable -------------------------------------------------
    def split_x(self, x, suffix):
        return {
            q["name"] + suffix: np.asarray(x[q["start"] : q["end"]], dtype=float)
            .reshape(q["shape"])
            for q in self.lay["quantities"]
        }

    def split_in(self, x, u, t):
        d = self.split_x(x, "_initial")
        for p in self.lay["params"]:
            d[p["name"]] = np.asarray(u[p["start"] : p["end"]], dtype=float).reshape(
                p["shape"]
            )
        d["time_initial"] = np.array([float(t)])
        return d

    def split_out(self, x, t):
        d = self.split_x(x, "_final")
        d["time_final"] = np.array([float(t)])
        return d

    def join_out(self, d):
        x = [0.0] * self.lay["n"]
        for q in self.lay["quantities"]:
            x[q["start"] : q["end"]] = np.asarray(d[q["name"] + "_final"]).ravel()
        return x, float(np.asarray(d["time_final"]).ravel()[0])

    def join_in(self, d):
        x = [0.0] * self.lay["n"]
        u = [0.0] * self.lay["m"]
        for q in self.lay["quantities"]:
            x[q["start"] : q["end"]] = np.asarray(d[q["name"] + "_initial"]).ravel()
        for p in self.lay["params"]:
            u[p["start"] : p["end"]] = np.asarray(d[p["name"]]).ravel()
        return x, u, float(np.asarray(d["time_initial"]).ravel()[0])

    # problem level ---------------------------------------------------------
    def set_inputs(self, x, u, t):
        for name, val in self.split_in(x, u, t).items():
            self.prob.set_val(name, val)

    def run(self):
        with quiet():
            self.prob.run_model()
        return self.join_out({o: self.prob.get_val(o) for o in self.outs})

    def fwd(self, dx, du, dt):
        seed = self.split_in(dx, du, dt)
        with quiet():
            self.prob.model.run_linearize()
            res = self._product("fwd", seed)
        return self.join_out(res)

    def rev(self, bx, bt):
        seed = self.split_out(bx, bt)
        with quiet():
            self.prob.model.run_linearize()
            res = self._product("rev", seed)
        return self.join_in(res)

    def _product(self, mode, seed):
        of = ["rk." + o for o in self.outs]
        wrt = ["rk." + i for i in self.ins]
        res = self.prob.compute_jacvec_product(
            of, wrt, mode, {"rk." + k: v for k, v in seed.items()}
        )
        return {k[3:]: v for k, v in res.items()}

    # component level: the inputs vector is written directly, so that products can
    # be asked for at inputs for which compute() was not called before.
    def c_set(self, x, u, t):
        inputs, _, _ = self.comp.get_nonlinear_vectors()
        for name, val in self.split_in(x, u, t).items():
            inputs[name] = val

    def c_run(self):
        inputs, outputs, _ = self.comp.get_nonlinear_vectors()
        with quiet():
            self.comp.compute(inputs, outputs)
        return self.join_out({o: outputs[o] for o in self.outs})

    def c_prod(self, mode, seed):
        inputs, _, _ = self.comp.get_nonlinear_vectors()
        d_inputs, d_outputs, _ = self.comp.get_linear_vectors()
        d_inputs.set_val(0.0)
        d_outputs.set_val(0.0)
        src = d_inputs if mode == "fwd" else d_outputs
        for name, val in seed.items():
            src[name] = val
        with quiet():
            self.comp.compute_jacvec_product(inputs, d_inputs, d_outputs, mode)
        if mode == "fwd":
            return self.join_out({o: d_outputs[o].copy() for o in self.outs})
        return self.join_in({i: d_inputs[i].copy() for i in self.ins})

    def c_fwd(self, dx, du, dt):
        return self.c_prod("fwd", self.split_in(dx, du, dt))

    def c_rev(self, bx, bt):
        return self.c_prod("rev", self.split_out(bx, bt))
