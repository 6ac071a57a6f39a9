"""Small nonlinear test model for demonstrations."""
import contextlib, io, warnings
import numpy as np
import openmdao.api as om
warnings.simplefilter("ignore")
from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from rkopenmdao.callback import Callback
from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer
from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import PyrevolveCheckpointer
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedFinalTime, PredefinedNumberOfSteps
from rkopenmdao.components import ExplicitUnsteadyComponent


class Logistic(ExplicitUnsteadyComponent):
    """x' = p x (1 - x) + t^2, explicit stages"""
    def initialize(self):
        self.options.declare("n", default=1)
        self.options.declare("log", default=None)
    def setup(self):
        n = self.options["n"]
        self.add_input("x_old", shape=n, tags=["x", "step_input_var"])
        self.add_input("x_acc", shape=n, tags=["x", "accumulated_stage_var"])
        self.add_input("t", val=0.0, tags=["time_variable"])
        self.add_input("p", val=1.0, tags=["p", "time_independent_input_var"])
        self.add_output("x_upd", shape=n, tags=["x", "stage_output_var"])
    def _s(self, i):
        return i["x_old"] + self.om_data_exchange.step_size * i["x_acc"]
    def compute(self, inputs, outputs):
        s = self._s(inputs)
        if self.options["log"] is not None:
            self.options["log"].append(float(inputs["t"][0]))
        outputs["x_upd"] = inputs["p"] * s * (1 - s) + inputs["t"] ** 2
    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode):
        s = self._s(inputs); h = self.om_data_exchange.step_size
        g = inputs["p"] * (1 - 2 * s)
        if mode == "fwd":
            d = d_outputs["x_upd"]
            if "x_old" in d_inputs: d += g * d_inputs["x_old"]
            if "x_acc" in d_inputs: d += g * h * d_inputs["x_acc"]
            if "t" in d_inputs: d += 2 * inputs["t"] * d_inputs["t"]
            if "p" in d_inputs: d += s * (1 - s) * d_inputs["p"]
        else:
            d = d_outputs["x_upd"]
            if "x_old" in d_inputs: d_inputs["x_old"] += g * d
            if "x_acc" in d_inputs: d_inputs["x_acc"] += g * h * d
            if "t" in d_inputs: d_inputs["t"] += np.sum(2 * inputs["t"] * d)
            if "p" in d_inputs: d_inputs["p"] += np.sum(s * (1 - s) * d)


def stage_problem(comp=None):
    prob = om.Problem(reports=False)
    prob.model.add_subsystem("c", comp or Logistic(), promotes=["*"])
    return prob


def integrator(tableau, config, comp=None, params=("p",), checkpointing=AllCheckpointer,
               **kw):
    args = dict(time_stage_problem=comp if isinstance(comp, om.Problem) else stage_problem(comp),
                butcher_tableau=tableau, integration_config=config,
                time_integration_quantities=["x"],
                time_independent_input_quantities=list(params),
                checkpointing_type=checkpointing, compute_callbacks=[],
                compute_jacvec_product_fwd_callbacks=[],
                compute_jacvec_product_rev_callbacks=[])
    args.update(kw)
    prob = om.Problem(reports=False)
    rk = prob.model.add_subsystem("rk", RungeKuttaIntegrator(**args), promotes=["*"])
    prob.setup()
    prob.final_setup()
    return prob, rk


def product(prob, mode, seed, of=("rk.x_final", "rk.time_final"),
            wrt=("rk.x_initial", "rk.p", "rk.time_initial")):
    prob.model.run_linearize()
    return prob.compute_jacvec_product(list(of), list(wrt), mode, seed)


def c_rev(rk, x, p, t, w=1.0):
    """Reverse product of the component at freely chosen inputs."""
    i, _, _ = rk.get_nonlinear_vectors()
    i["x_initial"], i["p"], i["time_initial"] = x, p, t
    di, do, _ = rk.get_linear_vectors()
    di.set_val(0.0); do.set_val(0.0)
    do["x_final"] = w
    rk.compute_jacvec_product(i, di, do, "rev")
    return np.concatenate([di["x_initial"], di["p"], di["time_initial"]])
