"""Shadow models of which every process holds a part.

The stage model is the map of zp.Ode over the values of all processes.  A quantity is
either replicated (every process has all entries) or distributed along its first axis.
DistComp gathers the parts, evaluates the map and hands out the parts again."""
from __future__ import annotations

import numpy as np
import openmdao.api as om

from rkopenmdao.components import ExplicitUnsteadyComponent

import rig
import zp
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from zp import proj, projv


def part(q, rank):
    """Global flat indices (relative to the variable) held by the process."""
    if q["parts"] is None:
        return list(range(int(np.prod(q["shape"]))))
    width = int(np.prod(q["shape"][1:]))
    lo = sum(q["parts"][:rank]) * width
    return list(range(lo, lo + q["parts"][rank] * width))


def local_shape(q, rank):
    if q["parts"] is None:
        return q["shape"]
    return (q["parts"][rank],) + tuple(q["shape"][1:])


class DistComp(ExplicitUnsteadyComponent):
    """One component of the stage problem, on all its processes.

    lay["sees"][name of first own quantity]: which states (x), updates (k) and
    parameters (p) it reads, and whether it reads the time (t)."""

    def initialize(self):
        for o in ("ode", "lay", "own", "rec", "tagged"):
            self.options.declare(o)

    def setup(self):
        lay, own, tagged = (self.options[k] for k in ("lay", "own", "tagged"))
        self.sees = sees = lay["sees"][own[0]]
        rk = self.comm.rank
        kw = lambda q: {"shape": local_shape(q, rk), "val": 0.0,
                        "distributed": q["parts"] is not None}
        for q in lay["quantities"]:
            mine = q["name"] in own
            if q["full"] and q["name"] in sees["x"]:
                self.add_input(q["name"] + "_old", **kw(q),
                               tags=[q["name"], "step_input_var"] if mine else [])
                self.add_input(q["name"] + "_acc", **kw(q),
                               tags=[q["name"], "accumulated_stage_var"] if mine else [])
            if mine:
                self.add_output(q["name"] + "_upd", **kw(q),
                                tags=[q["name"], "stage_output_var"])
            elif q["name"] in sees["k"]:
                self.add_input(q["name"] + "_upd", **kw(q))
        for u in lay["params"]:
            if u["name"] in sees["p"]:
                self.add_input(u["name"] + "_in", **kw(u),
                               tags=[u["name"], "time_independent_input_var"]
                               if u["name"] in tagged else [])
        if sees["t"]:
            self.add_input("time", shape=1, val=0.0,
                           tags=["time_variable"] if "time" in tagged else [])

    def _names(self):
        """(variable, quantity, offset in z) of the inputs that vary."""
        lay, n = self.options["lay"], self.options["ode"].n
        for q in lay["quantities"]:
            if q["full"] and q["name"] in self.sees["x"]:
                yield q["name"] + "_old", q, q["start"]
                yield q["name"] + "_acc", q, n + q["start"]
        for u in lay["params"]:
            if u["name"] in self.sees["p"]:
                yield u["name"] + "_in", u, 2 * n + 1 + u["start"]

    def _gather(self, q, values):
        """All entries of a variable, from the parts."""
        vals = self.options["ode"].pv(values)
        if q["parts"] is None:
            return vals
        return [v for p in self.comm.allgather(vals) for v in p]

    def _z(self, vec, point):
        ode = self.options["ode"]
        z = [0] * ode.nz
        for nm, q, off in self._names():
            if point or nm in vec:
                g = self._gather(q, vec[nm])
                z[off : off + len(g)] = g
        if self.sees["t"] and (point or "time" in vec):
            z[2 * ode.n] = ode.pv(vec["time"])[0]
        if point:
            z[-2] = ode.pv(self.om_data_exchange.step_size)[0]
            z[-1] = ode.pv(self.om_data_exchange.stage_factor)[0]
        return z

    def _lin_z(self, inputs):
        return self._z(inputs, True)

    def _ups(self, vec, names, check):
        """Updates of the named quantities, globally, zero elsewhere."""
        ode, lay = self.options["ode"], self.options["lay"]
        k = [0] * ode.n
        for q in lay["quantities"]:
            nm = q["name"] + "_upd"
            if q["name"] in names and (not check or nm in vec):
                k[q["start"] : q["end"]] = self._gather(q, vec[nm])
        return k

    def _mine(self, q, glob, off):
        rk = self.comm.rank
        return np.array([glob[off + i] for i in part(q, rk)], dtype=float).reshape(
            local_shape(q, rk))

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        ode, lay, own = (self.options[k] for k in ("ode", "lay", "own"))
        z = self._z(inputs, True)
        k = self._ups(inputs, self.sees["k"], False)
        for q in lay["quantities"]:
            if q["name"] in own:
                for j in range(q["start"], q["end"]):
                    k[j] = ode.row(j, z, k)
                outputs[q["name"] + "_upd"] = self._mine(q, k, q["start"])

    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode,
                               discrete_inputs=None):
        ode, lay, own = (self.options[k] for k in ("ode", "lay", "own"))
        n, before = ode.n, self.sees["k"]
        z = self._lin_z(inputs)
        if mode == "fwd":
            dz = self._z(d_inputs, False)
            dk = self._ups(d_inputs, before, True)
            for q in lay["quantities"]:
                if q["name"] in own:
                    for j in range(q["start"], q["end"]):
                        g = ode.jrow(j, z)
                        dk[j] = ode.red(sum(a * b for a, b in zip(g[:-2], dz[:-2]))
                                        + sum(ode.L[j][l] * dk[l] for l in range(j)))
                    if q["name"] + "_upd" in d_outputs:
                        d_outputs[q["name"] + "_upd"] += self._mine(q, dk, q["start"])
            return
        bk, bz = self._ups(d_outputs, own, True), [0] * ode.nz
        owned = [j for q in lay["quantities"] if q["name"] in own
                 for j in range(q["start"], q["end"])]
        for j in reversed(owned):
            g = ode.jrow(j, z)
            for i, a in enumerate(g):
                bz[i] = ode.red(bz[i] + a * bk[j])
            for l in range(j):
                bk[l] = ode.red(bk[l] + ode.L[j][l] * bk[j])
        for nm, q, off in self._names():
            if nm in d_inputs:
                d_inputs[nm] += self._mine(q, bz, off)
        if self.sees["t"] and "time" in d_inputs:
            d_inputs["time"] += float(bz[2 * n])
        for q in lay["quantities"]:
            if q["name"] in before and q["name"] + "_upd" in d_inputs:
                d_inputs[q["name"] + "_upd"] += self._mine(q, bk, q["start"])


class FixingDistComp(DistComp):
    """Gathers what its products depend on when it is linearized."""

    def compute_partials(self, inputs, partials, discrete_inputs=None):
        self._fixed = self._z(inputs, True)

    def _lin_z(self, inputs):
        return self._fixed


def restrict(ode, lay, rng):
    """Makes the rows of each component read only what the component sees."""
    n = ode.n
    groups = {own[0]: own for own in lay["comps"]}
    for first, own in groups.items():
        sees = lay["sees"][first]
        vis = [0] * ode.nz
        vis[-1] = vis[-2] = 1
        vis[2 * n] = int(sees["t"])
        k = set()
        for q in lay["quantities"]:
            for j in range(q["start"], q["end"]):
                if q["full"] and q["name"] in sees["x"]:
                    vis[j] = vis[n + j] = 1
                if q["name"] in sees["k"] or q["name"] in own:
                    k.add(j)
        for u in lay["params"]:
            if u["name"] in sees["p"]:
                for j in range(u["start"], u["end"]):
                    vis[2 * n + 1 + j] = 1
        live = [i for i in range(ode.nz) if vis[i]]
        for q in lay["quantities"]:
            if q["name"] in own:
                for j in range(q["start"], q["end"]):
                    ode.W[j] = [w * v for w, v in zip(ode.W[j], vis)]
                    ode.Q[j] = [(rng.choice(live), rng.choice(live), c)
                                for _, _, c in ode.Q[j]]
                    ode.L[j] = [w if l in k else 0 for l, w in enumerate(ode.L[j])]


def build_inner(ode, lay, rec, comm=None):
    """lay["comps"]: list of the own quantities of the components; lay["par"]: the
    components (by index) that form a parallel group, which comes first."""
    prob = om.Problem(reports=False, **({} if comm is None else {"comm": comm}))
    ivc = om.IndepVarComp()
    dist = False

    def add(nm, q):
        nonlocal dist
        if q["parts"] is not None:
            dist = True
            ivc.add_output(nm, shape=local_shape(q, prob.comm.rank), val=0.0,
                           distributed=True)

    for q in lay["quantities"]:
        if q["full"]:
            add(q["name"] + "_old", q)
            add(q["name"] + "_acc", q)
    for u in lay["params"]:
        add(u["name"] + "_in", u)
    if dist:
        prob.model.add_subsystem("ivc", ivc, promotes=["*"])
    home = prob.model
    par = None
    cls = FixingDistComp if ode.n % 2 else DistComp
    tags = dict(lay["tagged"])
    for i, own in enumerate(lay["comps"]):
        if i in lay["par"]:
            if par is None:
                par = prob.model.add_subsystem("par", om.ParallelGroup(), promotes=["*"])
            home = par
        else:
            home = prob.model
        home.add_subsystem(
            f"c{i}", cls(ode=ode, lay=lay, own=own, rec=rec,
                              tagged=[k for k, v in tags.items() if v == i]),
            promotes=["*"])
    return prob


class OutOfStep(RuntimeError):
    """Processes communicate for different purposes."""


class DRig:
    """One integrator on several processes; everybody calls all methods."""

    def __init__(self, ode, lay, tab, comm, **kw):
        self.ode, self.lay, self.tab, self.comm = ode, lay, tab, comm
        self.rec, self.count = zp.Recorder(), 0
        self.inner = build_inner(ode, lay, self.rec, comm)
        opts = dict(
            time_stage_problem=self.inner, butcher_tableau=rig.make_tableau(tab),
            time_integration_quantities=lay["order"],
            time_independent_input_quantities=[u["name"] for u in lay["params"]],
            compute_callbacks=[], compute_jacvec_product_fwd_callbacks=[],
            compute_jacvec_product_rev_callbacks=[])
        opts.update(kw)
        self.comp = RungeKuttaIntegrator(**opts)
        self.prob = om.Problem(reports=False, comm=comm)
        ivc = om.IndepVarComp()
        some = False
        par = bool(lay["par"])
        with rig.quiet():
            if par:  # which quantities are here is decided by OpenMDAO
                probe = build_inner(ode, lay, self.rec, comm)
                probe.setup()
                probe.final_setup()
                here = probe.model.get_io_metadata(iotypes=("input", "output"),
                                                   metadata_keys=["tags"])
                tagged = {t for m in here.values() for t in m["tags"]}
                everywhere = comm.allgather(tagged)
                for q in lay["quantities"] + lay["params"]:
                    q["here"] = q["name"] in tagged
                    q["all"] = all(q["name"] in e for e in everywhere)
        for q in lay["quantities"]:
            if q["parts"] is not None or not q.get("all", True):
                some = True
                ivc.add_output(q["name"] + "_initial", shape=self.lshape(q),
                               distributed=True)
        for q in lay["params"]:
            if q["parts"] is not None or not q.get("all", True):
                some = True
                ivc.add_output(q["name"], shape=self.lshape(q), distributed=True)
        if some:
            self.prob.model.add_subsystem("ivc", ivc, promotes=["*"])
        self.prob.model.add_subsystem("rk", self.comp, promotes=["*"])
        with rig.quiet():
            self.prob.setup()
            self.prob.final_setup()

    def lshape(self, q):
        if not q.get("here", True):
            return (0,)
        return local_shape(q, self.comm.rank)

    def lpart(self, q):
        return part(q, self.comm.rank) if q.get("here", True) else []

    def maps(self):
        """For every process the indices (from 1) of what it holds of x and u."""
        xm = [q["start"] + i + 1 for q in self.lay["quantities"] for i in self.lpart(q)]
        um = [q["start"] + i + 1 for q in self.lay["params"] for i in self.lpart(q)]
        return {"xm": self.comm.allgather(xm), "um": self.comm.allgather(um)}

    def _put(self, vec, suffix, x):
        for q in self.lay["quantities"]:
            vec[q["name"] + suffix] = np.array(
                [x[q["start"] + i] for i in self.lpart(q)], dtype=float).reshape(
                    self.lshape(q))

    def _put_in(self, vec, x, u, t):
        self._put(vec, "_initial", x)
        for q in self.lay["params"]:
            vec[q["name"]] = np.array([u[q["start"] + i] for i in self.lpart(q)],
                                      dtype=float).reshape(self.lshape(q))
        vec["time_initial"] = float(t)

    def _get(self, vec, suffix):
        return [v for q in self.lay["quantities"]
                for v in np.asarray(vec[q["name"] + suffix]).ravel().tolist()]

    def all(self, v):
        """What everybody has, provided that all are at the same place."""
        self.count += 1
        res = self.comm.allgather(("all", self.count, type(v).__name__, v))
        for r in res:
            if not isinstance(r, tuple) or r[:3] != ("all", self.count,
                                                     type(v).__name__):
                raise OutOfStep(f"{r} instead of {('all', self.count)}")
        return [r[3] for r in res]

    def set(self, x, u, t):
        self._put_in(self.comp.get_nonlinear_vectors()[0], x, u, t)
        return {"op": "set", "x": projv(x), "u": projv(u), "t": proj(t)}

    def run(self):
        inputs, outputs, _ = self.comp.get_nonlinear_vectors()
        with rig.quiet():
            self.comp.compute(inputs, outputs)
        return {"op": "run", "xs": self.all(projv(self._get(outputs, "_final"))),
                "ts": self.all(projv(outputs["time_final"])[0])}

    def _vecs(self):
        d_inputs, d_outputs, _ = self.comp.get_linear_vectors()
        d_inputs.set_val(0.0)
        d_outputs.set_val(0.0)
        return self.comp.get_nonlinear_vectors()[0], d_inputs, d_outputs

    def fwd(self, dx, du, dt):
        inputs, d_inputs, d_outputs = self._vecs()
        self._put_in(d_inputs, dx, du, dt)
        with rig.quiet():
            self.comp.compute_jacvec_product(inputs, d_inputs, d_outputs, "fwd")
        return {"op": "fwd", "dx": projv(dx), "du": projv(du), "dt": proj(dt),
                "xs": self.all(projv(self._get(d_outputs, "_final"))),
                "ts": self.all(projv(d_outputs["time_final"])[0])}

    def rev(self, bx, bt):
        inputs, d_inputs, d_outputs = self._vecs()
        self._put(d_outputs, "_final", bx)
        d_outputs["time_final"] = float(bt)
        with rig.quiet():
            self.comp.compute_jacvec_product(inputs, d_inputs, d_outputs, "rev")
        us = [v for q in self.lay["params"]
              for v in np.asarray(d_inputs[q["name"]]).ravel().tolist()]
        return {"op": "rev", "bx": projv(bx), "bt": proj(bt),
                "xs": self.all(projv(self._get(d_inputs, "_initial"))),
                "us": self.all(projv(us)), "ts": self.all(projv(d_inputs["time_initial"])[0])}
