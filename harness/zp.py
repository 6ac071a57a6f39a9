"""Finite-field shadow models.

The stage problem handed to the integrator is an OpenMDAO model whose update is a
quadratic map over Z_P.  Inputs (dyadic floats, hence exact) are projected to Z_P, the
update is an integer representative in [0, P).  Tableaux, step sizes, times and seeds
are dyadic, so every float operation of the code under test is exact and the result,
projected to Z_P, has to equal what the TLA+ specification computes - irrespective of
the order or the grouping of the operations in the code.
"""
from __future__ import annotations

import math
import random
from fractions import Fraction

import numpy as np
import openmdao.api as om

from rkopenmdao.components import ExplicitUnsteadyComponent

P = 46337


def proj(v) -> int:
    """Z_P image of a dyadic float; -1 for non finite values."""
    v = float(v)
    if not math.isfinite(v):
        return -1
    if v == int(v) and abs(v) < 2**52:
        return int(v) % P
    num, den = v.as_integer_ratio()
    return num * pow(den % P, -1, P) % P


def projv(arr) -> list:
    return [proj(v) for v in np.asarray(arr, dtype=float).ravel()]


class Ode:
    """Quadratic map over Z_P: k_j = C_j + sum W_jm z_m + sum c*z_r1*z_r2
    + sum_{l<j} L_jl k_l, with z = x ++ acc ++ <<t>> ++ u ++ <<h, a>>."""

    pv = staticmethod(projv)

    @staticmethod
    def red(v):
        return v % P

    def __init__(self, n, m, W, Q, C, L, mask):
        self.n, self.m, self.W, self.Q, self.C, self.L = n, m, W, Q, C, L
        self.mask = mask
        self.nz = 2 * n + m + 3

    @classmethod
    def random(cls, rng: random.Random, n, m, mask, chain=True, quad=2,
               rest=False):
        """rest: zero states and parameters are an equilibrium at any time."""
        nz = 2 * n + m + 3
        live = [i for i in range(nz) if mask[i]]
        W = [
            [rng.randrange(1, P) if mask[i] else 0 for i in range(nz)]
            for _ in range(n)
        ]
        Q = [
            [
                (rng.choice(live), rng.choice(live), rng.randrange(1, P))
                for _ in range(quad)
            ]
            for _ in range(n)
        ]
        C = [rng.randrange(P) for _ in range(n)]
        L = [
            [rng.randrange(1, P) if (chain and l < j) else 0 for l in range(n)]
            for j in range(n)
        ]
        if rest:
            t = [2 * n, nz - 2, nz - 1]
            some = [i for i in live if i not in t]
            for j in range(n):
                for i in t:
                    W[j][i] = 0
                Q[j] = [(rng.choice(some), r, c) for _, r, c in Q[j]] if some else []
            C = [0] * n
        return cls(n, m, W, Q, C, L, mask)

    def row(self, j, z, k):
        """Value of output j, given z and the already known k[0..j-1]."""
        s = self.C[j]
        for w, v in zip(self.W[j], z):
            s += w * v
        for r1, r2, c in self.Q[j]:
            s += self.red(c * z[r1]) * z[r2]
        for l in range(j):
            s += self.L[j][l] * k[l]
        return self.red(s)

    def f(self, z):
        k = []
        for j in range(self.n):
            k.append(self.row(j, z, k))
        return k

    def jrow(self, j, z):
        g = list(self.W[j])
        for r1, r2, c in self.Q[j]:
            g[r1] += c * z[r2]
            g[r2] += c * z[r1]
        return [self.red(v) for v in g]

    def as_json(self):
        return {
            "n": self.n,
            "m": self.m,
            "W": [projv(w) for w in self.W],
            "Q": [[[r1 + 1, r2 + 1, proj(c)] for r1, r2, c in q] for q in self.Q],
            "C": projv(self.C),
            "L": [projv(w) for w in self.L],
            "mask": self.mask,
        }


class FloatOde(Ode):
    """The same form over the floats, with small dyadic coefficients."""

    @staticmethod
    def pv(arr):
        return [float(v) for v in np.asarray(arr, dtype=float).ravel()]

    @staticmethod
    def red(v):
        return v


class Failure(RuntimeError):
    """Raised on purpose by a stage component."""


class Recorder:
    """Shared log of one rig: component evaluations and injected failures."""

    def __init__(self):
        self.evals = []
        self.lins = []
        self.fail_at = None  # (kind, countdown)

    def maybe_fail(self, kind):
        if self.fail_at is not None and self.fail_at[0] == kind:
            c = self.fail_at[1] - 1
            if c <= 0:
                self.fail_at = None
                raise Failure(kind)
            self.fail_at = (kind, c)


def infinite(*vecs):
    return any(not np.all(np.isfinite(v.asarray())) for v in vecs)


class StageComp(ExplicitUnsteadyComponent):
    """One component of the stage problem, computing outputs of quantities `own`.

    lay: layout dict with keys quantities [(name, shape, full, start, end)],
    params [(name, shape, start, end)], has_time.
    """

    def initialize(self):
        self.options.declare("ode")
        self.options.declare("lay")
        self.options.declare("own")
        self.options.declare("rec")
        self.options.declare("first", default=True)

    def setup(self):
        lay, own = self.options["lay"], self.options["own"]
        first = self.options["first"]
        for q in lay["quantities"]:
            if q["full"]:
                tag_it = q["name"] in own
                self.add_input(
                    q["name"] + "_old",
                    shape=q["shape"],
                    val=0.0,
                    tags=[q["name"], "step_input_var"] if tag_it else [],
                )
                self.add_input(
                    q["name"] + "_acc",
                    shape=q["shape"],
                    val=0.0,
                    tags=[q["name"], "accumulated_stage_var"] if tag_it else [],
                )
            if q["name"] in own:
                self.add_output(
                    q["name"] + "_upd",
                    shape=q["shape"],
                    val=0.0,
                    tags=[q["name"], "stage_output_var"],
                    **scaling(lay, q["name"]),
                )
        for u in lay["params"]:
            self.add_input(
                u["name"] + "_in",
                shape=u["shape"],
                val=0.0,
                tags=[u["name"], "time_independent_input_var"] if first else [],
            )
        if lay["has_time"]:
            self.add_input(
                "time", shape=1, val=0.0, tags=["time_variable"] if first else []
            )
        # outputs of earlier components this one depends on
        for q in lay["quantities"]:
            if q["name"] in lay["before"][own[0]]:
                self.add_input(q["name"] + "_upd", shape=q["shape"], val=0.0)

    def _z(self, inputs):
        ode, lay = self.options["ode"], self.options["lay"]
        z = [0] * ode.nz
        n = ode.n
        for q in lay["quantities"]:
            if q["full"]:
                z[q["start"] : q["end"]] = ode.pv(inputs[q["name"] + "_old"])
                z[n + q["start"] : n + q["end"]] = ode.pv(inputs[q["name"] + "_acc"])
        if lay["has_time"]:
            z[2 * n] = ode.pv(inputs["time"])[0]
        for u in lay["params"]:
            z[2 * n + 1 + u["start"] : 2 * n + 1 + u["end"]] = ode.pv(
                inputs[u["name"] + "_in"]
            )
        z[-2] = ode.pv(self.om_data_exchange.step_size)[0]
        z[-1] = ode.pv(self.om_data_exchange.stage_factor)[0]
        return [v * mk for v, mk in zip(z, ode.mask)]

    def _lin_z(self, inputs):
        return self._z(inputs)

    def _before(self, vec):
        ode, lay = self.options["ode"], self.options["lay"]
        k = [0] * ode.n
        for q in lay["quantities"]:
            if q["name"] in lay["before"][self.options["own"][0]]:
                k[q["start"] : q["end"]] = ode.pv(vec[q["name"] + "_upd"])
        return k

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        ode, lay, rec = self.options["ode"], self.options["lay"], self.options["rec"]
        z = self._z(inputs)
        if self.options["first"]:
            rec.maybe_fail("eval")
            rec.evals.append(z)
        if infinite(inputs):
            for q in lay["quantities"]:
                if q["name"] in self.options["own"]:
                    outputs[q["name"] + "_upd"] = np.nan
            return
        k = self._before(inputs)
        for q in lay["quantities"]:
            if q["name"] in self.options["own"]:
                for j in range(q["start"], q["end"]):
                    k[j] = ode.row(j, z, k)
                outputs[q["name"] + "_upd"] = np.array(
                    k[q["start"] : q["end"]], dtype=float
                ).reshape(q["shape"])

    def compute_jacvec_product(
        self, inputs, d_inputs, d_outputs, mode, discrete_inputs=None
    ):
        ode, lay, rec = self.options["ode"], self.options["lay"], self.options["rec"]
        n = ode.n
        own, before = self.options["own"], lay["before"][self.options["own"][0]]
        z = self._lin_z(inputs)
        if self.options["first"]:
            rec.maybe_fail("lin")
            rec.lins.append((mode, z))
        if infinite(inputs, d_inputs if mode == "fwd" else d_outputs):
            (d_outputs if mode == "fwd" else d_inputs).asarray()[:] = np.nan
            return
        names = []
        for q in lay["quantities"]:
            if q["full"]:
                names.append((q["name"] + "_old", q["start"], q["end"], q["shape"]))
                names.append(
                    (q["name"] + "_acc", n + q["start"], n + q["end"], q["shape"])
                )
        if lay["has_time"]:
            names.append(("time", 2 * n, 2 * n + 1, (1,)))
        for u in lay["params"]:
            o = 2 * n + 1
            names.append((u["name"] + "_in", o + u["start"], o + u["end"], u["shape"]))
        if mode == "fwd":
            dz = [0] * ode.nz
            for nm, s, e, _ in names:
                if nm in d_inputs:
                    dz[s:e] = ode.pv(d_inputs[nm])
            dk = [0] * n
            for q in lay["quantities"]:
                if q["name"] in before and q["name"] + "_upd" in d_inputs:
                    dk[q["start"] : q["end"]] = ode.pv(d_inputs[q["name"] + "_upd"])
            for q in lay["quantities"]:
                if q["name"] in own:
                    for j in range(q["start"], q["end"]):
                        g = ode.jrow(j, z)
                        dk[j] = ode.red(
                            sum(a * b for a, b in zip(g[:-2], dz[:-2]))
                            + sum(ode.L[j][l] * dk[l] for l in range(j))
                        )
                    if q["name"] + "_upd" in d_outputs:
                        d_outputs[q["name"] + "_upd"] += np.array(
                            dk[q["start"] : q["end"]], dtype=float
                        ).reshape(q["shape"])
        else:
            bz = [0] * ode.nz
            bk = [0] * n
            for q in lay["quantities"]:
                if q["name"] in own and q["name"] + "_upd" in d_outputs:
                    bk[q["start"] : q["end"]] = ode.pv(d_outputs[q["name"] + "_upd"])
            owned = sorted(
                j
                for q in lay["quantities"]
                if q["name"] in own
                for j in range(q["start"], q["end"])
            )
            for j in reversed(owned):
                g = ode.jrow(j, z)
                for i, a in enumerate(g):
                    bz[i] = ode.red(bz[i] + a * bk[j])
                for l in range(j):
                    bk[l] = ode.red(bk[l] + ode.L[j][l] * bk[j])
            for nm, s, e, shape in names:
                if nm in d_inputs:
                    d_inputs[nm] += np.array(bz[s:e], dtype=float).reshape(shape)
            for q in lay["quantities"]:
                if q["name"] in before and q["name"] + "_upd" in d_inputs:
                    d_inputs[q["name"] + "_upd"] += np.array(
                        bk[q["start"] : q["end"]], dtype=float
                    ).reshape(q["shape"])


def scaling(lay, name):
    """Exact solver scaling of an output, if the layout asks for any."""
    rng = random.Random(f"{lay.get('refs')}/{name}")
    if not lay.get("refs") or rng.random() < 0.3:
        return {}
    ref0 = rng.choice([0.0, 0.0, 1.0, -3.0])
    kw = {"ref": ref0 + 2.0 ** rng.randint(-3, 5), "ref0": ref0}
    if ref0 or rng.random() < 0.5:  # the default would be ref, no power of two
        # not 1: explicit components of OpenMDAO then take no scaling of residuals into
        # account at all, whatever that of the outputs is
        kw["res_ref"] = 2.0 ** rng.choice([-3, -2, -1, 1, 2, 3, 5])
    return kw


class LinearizedStageComp(StageComp):
    """Fixes what its products depend on when it is linearized, like components that
    declare and compute partial derivatives."""

    def compute_partials(self, inputs, partials, discrete_inputs=None):
        self._lz = self._z(inputs)

    def _lin_z(self, inputs):
        return self._lz


def make_layout(quantities, params, has_time, split):
    """quantities: [(name, shape, full)], params: [(name, shape)]."""
    lay = {"quantities": [], "params": [], "has_time": has_time, "before": {}}
    off = 0
    for name, shape, full in quantities:
        size = int(np.prod(shape))
        lay["quantities"].append(
            {"name": name, "shape": tuple(shape), "full": full, "start": off,
             "end": off + size}
        )
        off += size
    lay["n"] = off
    off = 0
    for name, shape in params:
        size = int(np.prod(shape))
        lay["params"].append(
            {"name": name, "shape": tuple(shape), "start": off, "end": off + size}
        )
        off += size
    lay["m"] = off
    lay["split"] = split
    names = [q["name"] for q in lay["quantities"]]
    for i, nm in enumerate(names):
        lay["before"][nm] = names[:i] if split else []
    n, m = lay["n"], lay["m"]
    mask = [0] * (2 * n + m + 3)
    for q in lay["quantities"]:
        if q["full"]:
            for j in range(q["start"], q["end"]):
                mask[j] = mask[n + j] = 1
    if has_time:
        mask[2 * n] = 1
    for j in range(m):
        mask[2 * n + 1 + j] = 1
    mask[-1] = mask[-2] = 1
    lay["mask"] = mask
    lay["refs"] = 0
    return lay


def build_inner(ode, lay, rec, ivc=False, nest=False, fixing=False):
    """Stage problem for the layout. ivc: feed from an explicit IndepVarComp.
    nest: two groups deep, names are not promoted to the top."""
    prob = om.Problem(reports=False)
    place = prob.model
    cls = LinearizedStageComp if fixing else StageComp
    if nest:
        place = place.add_subsystem("outer", om.Group()).add_subsystem(
            "g", om.Group(), promotes=["*"])
    names = [q["name"] for q in lay["quantities"]]
    if ivc and (lay["has_time"] or lay["params"]
                or any(q["full"] for q in lay["quantities"])):
        comp = om.IndepVarComp()
        for q in lay["quantities"]:
            if q["full"]:
                comp.add_output(q["name"] + "_old", shape=q["shape"], val=0.0,
                                **scaling(lay, q["name"] + "_old"))
                comp.add_output(q["name"] + "_acc", shape=q["shape"], val=0.0,
                                **scaling(lay, q["name"] + "_acc"))
        for u in lay["params"]:
            comp.add_output(u["name"] + "_in", shape=u["shape"], val=0.0,
                            **scaling(lay, u["name"]))
        if lay["has_time"]:
            comp.add_output("time", shape=1, val=0.0, **scaling(lay, "time"))
        place.add_subsystem("ivc", comp, promotes=["*"])
    if lay["split"]:
        for i, nm in enumerate(names):
            place.add_subsystem(
                f"c{i}",
                cls(ode=ode, lay=lay, own=[nm], rec=rec, first=(i == 0)),
                promotes=["*"],
            )
    else:
        place.add_subsystem(
            "c0", cls(ode=ode, lay=lay, own=names, rec=rec), promotes=["*"]
        )
    return prob
