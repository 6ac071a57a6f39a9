"""C13: tagged variables are translated correctly or rejected at set up."""
import json
import os
import random

import numpy as np
import openmdao.api as om

from rig import quiet
from rkopenmdao.butcher_tableaux import explicit_euler
from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEInputState
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.errors import SetupError
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps

TAGS = {"so": "stage_output_var", "si": "step_input_var", "as": "accumulated_stage_var",
        "ti": "time_independent_input_var", "tv": "time_variable"}
SHAPES = [(1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2)]


def scenarios(tier, seed):
    h = json.load(open(os.environ["HIST_FILE"]))
    res = []
    for i, c in enumerate(h["c1"] * (3 if tier == "quick" else 6) + h["c2"] + h["c3"]):
        res.append({"c": c, "s": f"{seed}/{i}"})
    return res


def start(v, base=6000.0):
    """Values a variable has before anybody sets it."""
    return (base + 100 * v["i"] + 1 + np.arange(int(np.prod(v["shape"])))).reshape(
        v["shape"])


class Probe(om.ExplicitComponent):
    def initialize(self):
        self.options.declare("vs")
        self.options.declare("seen")

    def setup(self):
        for v in self.options["vs"]:
            if v["io"] == "in":
                self.add_input(v["name"], shape=v["shape"], val=start(v), tags=v["tags"])
            else:
                self.add_output(v["name"], shape=v["shape"], val=0.0, tags=v["tags"])

    def compute(self, inputs, outputs):
        for v in self.options["vs"]:
            if v["io"] == "in":
                self.options["seen"][v["i"]] = np.asarray(inputs[v["name"]]).ravel().tolist()
            else:
                outputs[v["name"]] = (5000.0 + 100 * v["i"] + 1 + np.arange(
                    int(np.prod(v["shape"])))).reshape(v["shape"])


def build(rng, vs, seen):
    """Distributes the variables over components in a random hierarchy."""
    prob = om.Problem(reports=False)
    ncomp = rng.choice([1, 1, 2, 3])
    comps = [[] for _ in range(ncomp)]
    for v in vs:
        rng.choice(comps).append(v)
    groups = [prob.model]
    if rng.random() < 0.5:
        pro = rng.random() < 0.5
        g = prob.model.add_subsystem("grp", om.Group(), promotes=["*"] if pro else [])
        groups.append(g)
        if rng.random() < 0.4:
            groups.append(g.add_subsystem("sub", om.Group(),
                                          promotes=["*"] if rng.random() < 0.5 else []))
    paths = {id(prob.model): "", }
    ivc = []
    for k, cv in enumerate(comps):
        if not cv:
            continue
        rng.shuffle(cv)
        g = rng.choice(groups)
        # connected inputs: fed by an explicit output of the top level
        promote = rng.random() < 0.6
        g.add_subsystem(f"comp{k}", Probe(vs=cv, seen=seen),
                        promotes=["*"] if promote else [])
        if g is prob.model and not promote:
            for v in cv:
                if v["io"] == "in" and rng.random() < 0.4:
                    ivc.append((v, f"comp{k}.{v['name']}"))
                    v["base"] = 8000
    if ivc:
        c = om.IndepVarComp()
        for v, _ in ivc:
            c.add_output("src_" + v["name"], shape=v["shape"],
                         val=start(v, v["base"]))
        prob.model.add_subsystem("ivc", c)
        prob.model.set_order(["ivc"] + [s for s in _names(prob.model) if s != "ivc"])
        for v, target in ivc:
            prob.model.connect("ivc.src_" + v["name"], target)
    return prob


def _names(group):
    return list(group._static_subsystems_allprocs.keys()) if hasattr(
        group, "_static_subsystems_allprocs") else []


def run(sc):
    rng = random.Random(sc["s"])
    raw, lq, lw = sc["c"]
    shape = {q: rng.choice(SHAPES) for q in "xyzwv"}
    vs = []
    for i, (io, one, tags) in enumerate(raw):
        tags = sorted(tags)
        own = [t for t in tags if t in shape]
        if one:
            sh = rng.choice([(1,), (1, 1)])
        elif own:
            sh = shape[own[0]]
        else:
            sh = rng.choice(SHAPES[1:])
        full = [TAGS.get(t, t) for t in tags] + ["unrelated"][: rng.choice([0, 1])]
        rng.shuffle(full)
        vs.append({"i": i + 1, "io": io, "name": f"n{rng.randrange(1000)}_{i}",
                   "t": tags, "tags": full, "shape": sh, "one": int(bool(one)), "base": 6000})
    seen = {}
    prob = build(rng, list(vs), seen)
    lq, lw = sorted(lq), sorted(lw)
    rng.shuffle(lq)
    rng.shuffle(lw)
    ev = []
    try:
        if rng.random() < 0.25:
            outer = om.Problem(reports=False)
            rk = RungeKuttaIntegrator(
                time_stage_problem=prob, butcher_tableau=explicit_euler,
                integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(1),
                                                     1.0),
                time_integration_quantities=lq, time_independent_input_quantities=lw)
            outer.model.add_subsystem("rk", rk)
            with quiet():
                outer.setup()
                outer.final_setup()
            ode = None
            ev.append({"op": "setup", "res": "ok"})
            ev += integrate(outer, rk, lq, lw, seen, vs)
        else:
            with quiet():
                prob.setup()
                prob.final_setup()
                ode = OpenMDAOODE(prob, lq, lw)
            ev.append({"op": "setup", "res": "ok"})
    except SetupError:
        ode = None
        ev.append({"op": "setup", "res": "SetupError"})
    if ode is not None:
        ev.append(probe(ode, lw, seen, vs))
    return [{"ev": ev, "vs": [{"io": v["io"], "t": v["t"], "one": v["one"], "base": v["base"],
                               "size": int(np.prod(v["shape"])),
                               "shape": list(v["shape"])} for v in vs],
             "lq": lq, "lw": lw}]


def flat(a):
    return [int(v) for v in np.asarray(a).ravel()]


def integrate(outer, rk, lq, lw, seen, vs):
    """The inputs of the integrator as they are after set up, and one step of Euler."""
    names = [q + "_initial" for q in lq] + lw
    ev = [{"op": "defaults", "t": flat(outer.get_val("rk.time_initial")),
           "v": [{"name": q, "val": flat(outer.get_val("rk." + nm)),
                  "shape": list(outer.get_val("rk." + nm).shape)}
                 for q, nm in zip(lq + lw, names)]}]
    given = []
    for i, nm in enumerate(names):
        val = outer.get_val("rk." + nm)
        new = (1000.0 * (i + 1) + np.arange(val.size)).reshape(val.shape)
        outer.set_val("rk." + nm, new)
        given.append(flat(new))
    outer.set_val("rk.time_initial", 4000.0)
    with quiet():
        outer.run_model()
    ev.append({"op": "euler", "given": [{"name": q, "val": g}
                                        for q, g in zip(lq + lw, given)],
               "seen": [flat(seen.get(v["i"], [])) for v in vs],
               "final": [{"name": q, "val": flat(outer.get_val(f"rk.{q}_final")),
                          "shape": list(outer.get_val(f"rk.{q}_final").shape)}
                         for q in lq],
               "t": flat(outer.get_val("rk.time_final"))})
    return ev


def probe(ode, lw, seen, vs):
    md = ode.time_integration_metadata
    n, m = int(ode.get_state_size()), int(ode.get_independent_input_size())

    def ranges(lst):
        return [{"name": q.name, "lo": int(q.array_metadata.start_index),
                 "hi": int(q.array_metadata.end_index),
                 "shape": [int(a) for a in q.array_metadata.shape]} for q in lst]

    with quiet():
        res = ode.compute_update(DiscretizedODEInputState(
            1000.0 + np.arange(n), 2000.0 + np.arange(n), 3000.0 + np.arange(m), 4000.0),
            0.5, 0.25)
    return {"op": "probe", "n": n, "m": m, "q": ranges(md.time_integration_quantity_list),
            "w": ranges(md.time_independent_input_quantity_list),
            "seen": [[int(a) for a in seen.get(v["i"], [])] for v in vs],
            "upd": [int(a) for a in res.stage_update]}
