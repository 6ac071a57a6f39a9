"""C17: integrators as components of larger models."""
import collections
import random

import numpy as np
import openmdao.api as om

import zp
from adapt import Measure, Scripted
from rkopenmdao.callback import Callback
from rkopenmdao.error_controller import ErrorControllerConfig
from rig import (CHECKPOINTERS, IntegrationConfig, PredefinedFinalTime,
                 PredefinedNumberOfSteps, RungeKuttaIntegrator, dyadic, make_tableau,
                 quiet, random_tableau, tab_json)
from zp import P, FloatOde, Ode, make_layout, proj, projv

COUNT = {"quick": 200, "thorough": 3000}
GRID = 2.0**-24


def scenarios(tier, seed):
    kinds = ["exact", "exact", "exact", "cyc", "float", "loop"]
    return [{"s": f"{seed}/{i}", "kind": kinds[i % 6]} for i in range(COUNT[tier])]


class AlgBase(om.ExplicitComponent):
    """Algebraic component: one output vector, a quadratic map of its inputs."""

    def initialize(self):
        for o in ("ode", "ins", "shape"):
            self.options.declare(o)

    def setup(self):
        for i, sh in enumerate(self.options["ins"]):
            self.add_input(f"i{i}", shape=sh)
        self.add_output("y", shape=self.options["shape"])

    def _z(self, vec, absent=0):
        z = []
        for i, sh in enumerate(self.options["ins"]):
            n = int(np.prod(sh))
            z += self.options["ode"].pv(vec[f"i{i}"]) if f"i{i}" in vec else [0] * n
        return z

    def compute(self, inputs, outputs):
        ode = self.options["ode"]
        outputs["y"] = np.array(ode.f(self._z(inputs)), dtype=float).reshape(
            self.options["shape"])

    def _jac(self, inputs):
        ode, z = self.options["ode"], self._z(inputs)
        rows = []
        for j in range(ode.n):
            g = ode.jrow(j, z)
            for l in range(j):
                g = [ode.red(a + ode.L[j][l] * b) for a, b in zip(g, rows[l])]
            rows.append(g)
        return rows


class Dense(AlgBase):
    def setup(self):
        super().setup()
        self.declare_partials("*", "*")

    def compute_partials(self, inputs, partials):
        J, off = np.array(self._jac(inputs), dtype=float), 0
        for i, sh in enumerate(self.options["ins"]):
            n = int(np.prod(sh))
            partials["y", f"i{i}"] = J[:, off:off + n]
            off += n


class Alg(AlgBase):
    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode):
        ode, J = self.options["ode"], self._jac(inputs)
        if "y" not in d_outputs:
            return
        if mode == "fwd":
            dz = self._z(d_inputs)
            d_outputs["y"] += np.array(
                [float(ode.red(sum(a * b for a, b in zip(r, dz)))) for r in J]
            ).reshape(self.options["shape"])
        else:
            by, off = ode.pv(d_outputs["y"]), 0
            bz = [float(ode.red(sum(J[j][i] * by[j] for j in range(ode.n))))
                  for i in range(len(J[0]))]
            for i, sh in enumerate(self.options["ins"]):
                n = int(np.prod(sh))
                if f"i{i}" in d_inputs:
                    d_inputs[f"i{i}"] += np.array(bz[off:off + n]).reshape(sh)
                off += n


SHAPES = [(1,), (1,), (2,), (2,), (2, 1), (1, 2), (3,)]


class Sizes(Callback):
    """The step sizes of the last sequence of steps, forward or run."""

    def __init__(self):
        self.hs = []

    def before_iteration(self, iteration, time_integration_state, ode,
                         discretization_scheme):
        if iteration == 1:
            self.hs.clear()

    def after_iteration(self, iteration, time_integration_state, ode,
                        discretization_scheme):
        self.hs.append(proj(time_integration_state.step_size_history[0]))


class Model:
    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        self.exact = kind in ("exact", "cyc")
        self.vars = {}      # name -> (shape, start, end)
        self.V = 0
        self.ivc = om.IndepVarComp()
        self.ivc_names = []
        self.nodes = []     # dicts with name, kind, comp, ins {input: source}, json
        self.conn = []

    # -- construction ------------------------------------------------------
    def new_var(self, name, shape):
        n = int(np.prod(shape))
        self.vars[name] = (tuple(shape), self.V, self.V + n)
        self.V += n
        return name

    def new_ivc(self, shape):
        name = f"v{len(self.ivc_names)}"
        self.ivc.add_output(name, shape=shape, val=0.0)
        self.ivc_names.append(name)
        return self.new_var(name, shape)

    def ode(self, n, nz, chain=True):
        rng = self.rng
        if self.exact:
            o = Ode.random(rng, n, 0, [1] * nz + [0] * 0) if False else None
            W = [[rng.randrange(1, P) for _ in range(nz)] for _ in range(n)]
            Q = [[(rng.randrange(nz), rng.randrange(nz), rng.randrange(1, P))
                  for _ in range(2)] for _ in range(n)]
            C = [rng.randrange(P) for _ in range(n)]
            L = [[rng.randrange(1, P) if l < j else 0 for l in range(n)]
                 for j in range(n)]
            return Ode(n, nz, W, Q, C, L, [1] * nz)
        W = [[float(rng.choice([-1, 0, 1, 1, 2])) for _ in range(nz)] for _ in range(n)]
        return FloatOde(n, nz, W, [[] for _ in range(n)],
                        [float(rng.randrange(-3, 4)) for _ in range(n)],
                        [[0.0] * n for _ in range(n)], [1] * nz)

    def source(self, shape, new=0.3):
        """Some variable of this shape, an existing or a new one."""
        rng = self.rng
        have = [v for v, (sh, _, _) in self.vars.items() if sh == tuple(shape)]
        if have and rng.random() > new:
            return rng.choice(have)
        if self.nodes and rng.random() < 0.5:
            return self.add_alg(shape, [rng.choice(list(self.vars))
                                        for _ in range(rng.choice([1, 2]))])
        return self.new_ivc(shape)

    def add_alg(self, shape, sources, ode=None):
        name = f"n{len(self.nodes)}"
        shapes = [self.vars[s][0] for s in sources]
        nz = sum(int(np.prod(s)) for s in shapes)
        ode = ode or self.ode(int(np.prod(shape)), nz)
        dense = (not self.exact) and self.rng.random() < 0.4
        self.nodes.append({"name": name, "kind": "alg", "ode": ode,
                           "comp": (Dense if dense else Alg)(
                               ode=ode, ins=shapes, shape=tuple(shape)),
                           "ins": {f"i{i}": s for i, s in enumerate(sources)},
                           "outs": [self.new_var(name + ".y", shape)]})
        return name + ".y"

    def stage_ode(self, lay, decouple=False):
        rng = self.rng
        n, m, mask = lay["n"], lay["m"], lay["mask"]
        if not self.exact:
            W = [[float(rng.choice([-1, 0, 1, 1])) * k for k in mask] for _ in range(n)]
            for w in W:
                w[-1] = w[-2] = 0.0
            return FloatOde(n, m, W, [[] for _ in range(n)],
                            [float(rng.randrange(-3, 4)) for _ in range(n)],
                            [[0.0] * n for _ in range(n)], mask)
        o = Ode.random(rng, n, m, mask)
        if decouple:  # the first quantity does not depend on the others
            first = lay["quantities"][0]
            other = [i for i in range(2 * n) if not
                     first["start"] <= i % n < first["end"]]
            live = [i for i in range(o.nz) if mask[i] and i not in other]
            for j in range(first["start"], first["end"]):
                for i in other:
                    o.W[j][i] = 0
                o.Q[j] = [(rng.choice(live), rng.choice(live), c) for _, _, c in o.Q[j]]
        return o

    def add_rk(self, lay, ode, tab, n_steps, h, sources):
        """sources: input variable -> source variable (None: not connected yet)."""
        rng = self.rng
        name = f"n{len(self.nodes)}"
        inner = zp.build_inner(ode, lay, zp.Recorder(), ivc=rng.random() < 0.3,
                               nest=rng.random() < 0.3, fixing=rng.random() < 0.4)
        order = [q["name"] for q in lay["quantities"]]
        rng.shuffle(order)
        term = (PredefinedNumberOfSteps(n_steps))
        sizes, kw = Sizes(), {}
        if tab["bh"] is not None:
            seed, lt = rng.random(), 4 * rng.randint(-1, 1)
            cfg = ErrorControllerConfig(2.0 ** (lt / 4), 2.0**-6, 4.0)
            kw = dict(
                error_controller=[lambda p, config=cfg, base=None, **_: Scripted(
                    seed, [0.5, 0.25, 0.125, 0.375, 0.75, 1.0], config)],
                error_controller_options={"config": cfg},
                error_measurer=Measure(seed, lt, 40, collections.deque(maxlen=1)))
        comp = RungeKuttaIntegrator(
            time_stage_problem=inner, butcher_tableau=make_tableau(tab),
            integration_config=IntegrationConfig(bool(kw), term, h),
            compute_callbacks=[sizes], compute_jacvec_product_fwd_callbacks=[sizes],
            **kw, time_integration_quantities=order,
            time_independent_input_quantities=[u["name"] for u in lay["params"]],
            checkpointing_type=CHECKPOINTERS[rng.choice(["all", "pyrevolve"])])
        outs = [self.new_var(f"{name}.{q['name']}_final", q["shape"])
                for q in lay["quantities"]]
        outs.append(self.new_var(f"{name}.time_final", (1,)))
        self.nodes.append({"name": name, "kind": "rk", "ode": ode, "comp": comp,
                           "lay": lay, "tab": tab, "N": n_steps, "h": h,
                           "ins": sources, "outs": outs, "sizes": sizes})
        return self.nodes[-1]

    def rk_inputs(self, lay):
        return ([(q["name"] + "_initial", q["shape"]) for q in lay["quantities"]]
                + [(u["name"], u["shape"]) for u in lay["params"]]
                + [("time_initial", (1,))])

    def layout(self, decouple=False):
        rng = self.rng
        nq = rng.choice([2, 3]) if decouple else rng.choice([1, 1, 2])
        qs = [(nm, rng.choice(SHAPES), decouple or rng.random() < 0.85)
              for nm in rng.sample(["qa", "qb", "qc", "qd"], nq)]
        ps = [(nm, rng.choice(SHAPES[:5]))
              for nm in rng.sample(["pa", "pb"], rng.choice([0, 1, 1, 2]))]
        return make_layout(qs, ps, rng.random() < 0.7, nq > 1 and rng.random() < 0.4)

    def tableau(self):
        rng = self.rng
        if self.exact:
            return random_tableau(rng, s=rng.choice([1, 1, 2, 2, 3]),
                                  embedded=self.kind == "exact" and rng.random() < 0.4)
        s = rng.choice([1, 2])
        q = [0.0, 0.25, 0.5, 0.75, 1.0, -0.5]
        A = [[rng.choice(q) if j < i or (j == i and rng.random() < 0.4) else 0.0
              for j in range(s)] for i in range(s)]
        return {"s": s, "A": A, "b": [rng.choice(q[1:]) for _ in range(s)],
                "c": [rng.choice(q) for _ in range(s)], "kind": "", "bh": None}

    def build_graph(self):
        rng, kind = self.rng, self.kind
        self.cyc = []
        if kind in ("exact", "float"):
            lay = self.layout()
            for _ in range(rng.choice([1, 2, 2, 3] if kind == "exact" else [1, 2])):
                if rng.random() < 0.4:
                    lay = self.layout()
                ins = {nm: self.source(sh) for nm, sh in self.rk_inputs(lay)}
                self.add_rk(lay, self.stage_ode(lay), self.tableau(),
                            rng.choice([1, 2, 3] if self.exact else [1, 2]),
                            rng.choice([0.5, 1.0]), ins)
        elif kind == "cyc":
            lay = self.layout(True)
            ins = {nm: (None if nm == lay["quantities"][1]["name"] + "_initial"
                        else self.source(sh)) for nm, sh in self.rk_inputs(lay)}
            first = len(self.nodes)
            rk = self.add_rk(lay, self.stage_ode(lay, True), self.tableau(),
                             rng.choice([1, 2, 3]), rng.choice([0.5, 1.0]), ins)
            q0, q1 = lay["quantities"][:2]
            src = [f"{rk['name']}.{q0['name']}_final"]
            if rng.random() < 0.5:
                src.append(rng.choice(self.ivc_names))
            fb = self.add_alg(q1["shape"], src)
            ins[q1["name"] + "_initial"] = fb
            self.cyc = [first, first + 1]
        else:  # a loop with gain one half
            n = rng.choice([1, 2])
            lay = make_layout([("qa", (n,), True)],
                              [("pa", (1,))] if rng.random() < 0.6 else [],
                              rng.random() < 0.6, False)
            N, h, lam = rng.choice([(1, 0.5, -1.0), (2, 0.5, -1.0), (1, 1.0, 1.0),
                                    (2, 1.0, 1.0), (3, 0.5, -1.0), (2, 0.5, 2.0)])
            mask = lay["mask"]
            W = [[(lam if i == j else 0.0) if i < 2 * n else
                  float(rng.choice([-1, 1, 2])) * mask[i] for i in range(len(mask))]
                 for j in range(n)]
            for w in W:
                w[-1] = w[-2] = 0.0
            ode = FloatOde(n, lay["m"], W, [[] for _ in range(n)],
                           [float(rng.randrange(-2, 3)) for _ in range(n)],
                           [[0.0] * n for _ in range(n)], mask)
            tab = {"s": 1, "A": [[rng.choice([0.0, 0.5])]], "b": [1.0],
                   "c": [rng.choice([0.0, 0.5, 1.0])], "bh": None, "kind": ""}
            R = (1 + h * lam)**N
            ins = {nm: (None if nm == "qa_initial" else self.source(sh, 1.0))
                   for nm, sh in self.rk_inputs(lay)}
            first = len(self.nodes)
            rk = self.add_rk(lay, ode, tab, N, h, ins)
            c = self.new_ivc((n,))
            al = 0.5 / R
            fbo = FloatOde(n, 0, [[al if i == j else float(i == n + j)
                                   for i in range(2 * n)] for j in range(n)],
                           [[] for _ in range(n)], [0.0] * n,
                           [[0.0] * n for _ in range(n)], [1] * 2 * n)
            fb = self.add_alg((n,), [rk["outs"][0], c], fbo)
            ins["qa_initial"] = fb
            self.cyc = [first, first + 1]
        for _ in range(rng.choice([0, 1, 1, 2])):
            self.add_alg(rng.choice(SHAPES), [rng.choice(list(self.vars))
                                              for _ in range(rng.choice([1, 2, 2]))])

    # -- OpenMDAO ----------------------------------------------------------
    def linear(self, n, cyclic=False):
        rng = self.rng
        if self.exact or rng.random() < 0.35:
            it = n + 4 if self.exact else 120
            kw = {"maxiter": it, "iprint": -1, "atol": 1e-14, "rtol": 1e-15}
            if self.exact:
                kw.update(atol=0.0, rtol=0.0) if False else None
            c = [lambda: om.LinearBlockGS(**kw), lambda: om.LinearBlockJac(**kw)]
            if not cyclic:
                c.append(om.LinearRunOnce)
            return rng.choice(c)()
        return rng.choice([
            lambda: om.DirectSolver(assemble_jac=False),
            lambda: om.ScipyKrylov(iprint=-1, atol=1e-14, rtol=1e-14, maxiter=200)])()

    def nonlinear(self, n):
        rng = self.rng
        if self.exact:
            return rng.choice([om.NonlinearBlockGS, om.NonlinearBlockJac])(
                maxiter=2 * n + 6, iprint=-1, atol=1e-14, rtol=1e-300)
        if rng.random() < 0.3:
            return om.NewtonSolver(solve_subsystems=rng.random() < 0.5, maxiter=20,
                                   iprint=-1, atol=1e-13, rtol=1e-300)
        return om.NonlinearBlockGS(maxiter=120, iprint=-1, atol=1e-14, rtol=1e-300)

    def build(self):
        rng = self.rng
        self.build_graph()
        self.prob = prob = om.Problem(reports=False)
        m = prob.model
        m.add_subsystem("ivc", self.ivc)
        path = {}
        i = 0
        ng = 0
        top = 0
        while i < len(self.nodes):
            size = 1
            if self.cyc and i == self.cyc[0]:
                size = 2
            elif rng.random() < 0.35:
                size = rng.randint(1, 3)
                if self.cyc and i < self.cyc[0] < i + size:
                    size = self.cyc[0] - i
            part = self.nodes[i:i + size]
            top += 1
            cyclic = bool(self.cyc) and i == self.cyc[0]
            if len(part) > 1 or cyclic or rng.random() < 0.15:
                g = m.add_subsystem(f"g{ng}", om.Group())
                pre = f"g{ng}."
                ng += 1
                g.linear_solver = self.linear(len(part), cyclic)
                if cyclic:
                    g.nonlinear_solver = self.nonlinear(len(part))
                    if rng.random() < 0.4:
                        part = part[::-1]
            else:
                g, pre = m, ""
            for nd in part:
                g.add_subsystem(nd["name"], nd["comp"])
                path[nd["name"]] = pre + nd["name"]
            i += size
        m.linear_solver = self.linear(top)
        for v in self.vars:
            node, _, var = v.partition(".")
            path[v] = f"ivc.{v}" if not var else f"{path[node]}.{var}"
        for nd in self.nodes:
            for inp, src in nd["ins"].items():
                m.connect(path[src], f"{path[nd['name']]}.{inp}")
        self.path = path
        with quiet():
            prob.setup(mode=rng.choice(["fwd", "rev"]))
            prob.final_setup()
        self.mode = prob._mode

    def json(self):
        idx = lambda v: list(range(self.vars[v][1] + 1, self.vars[v][2] + 1))
        res = []
        for nd in self.nodes:
            out = [i for v in nd["outs"] for i in idx(v)]
            if nd["kind"] == "alg":
                res.append({"kind": "alg", "o": nd["ode"].as_json(), "out": out,
                            "ix": [i for s in nd["ins"].values() for i in idx(s)]})
            else:
                lay = nd["lay"]
                res.append({
                    "kind": "rk", "o": nd["ode"].as_json(), "tb": tab_json(nd["tab"]),
                    "N": nd["N"], "h": -1 if nd["tab"]["bh"] else proj(nd["h"]),
                    "out": out,
                    "ix": [i for q in lay["quantities"]
                           for i in idx(nd["ins"][q["name"] + "_initial"])],
                    "iu": [i for u in lay["params"] for i in idx(nd["ins"][u["name"]])],
                    "it": idx(nd["ins"]["time_initial"])[0]})
        return res

    # -- observation -------------------------------------------------------
    def snap(self, arr):
        """Z_P image; values that solvers iterate for are rounded to the grid."""
        a = np.asarray(arr, dtype=float)
        if self.exact:
            return projv(a), 0
        if not np.all(np.isfinite(a)) or np.abs(a).max(initial=0.0) > 1e6:
            return projv(a), 1
        r = np.round(a / GRID) * GRID
        return projv(r), int(np.abs(a - r).max(initial=0.0) > 0.05 * GRID)

    def gather(self, get):
        v = np.zeros(self.V)
        for name, (_, s, e) in self.vars.items():
            v[s:e] = np.asarray(get(name), dtype=float).ravel()
        return v

    def free(self):
        return [i for v in self.ivc_names for i in range(self.vars[v][1],
                                                         self.vars[v][2])]


def run(sc):
    rng = random.Random(sc["s"])
    m = Model(rng, sc["kind"])
    m.build()
    p, free = m.prob, m.free()
    ev = []
    of = [m.path[v] for v in m.vars if v not in m.ivc_names]
    wrt = [m.path[v] for v in m.ivc_names]
    for _ in range(rng.choice([1, 1, 2])):
        x = np.zeros(m.V)
        for i in free:
            x[i] = dyadic(rng) if m.exact else float(rng.randrange(-4, 5))
        for v in m.ivc_names:
            sh, s, e = m.vars[v]
            p.set_val(m.path[v], x[s:e].reshape(sh))
        with quiet():
            p.run_model()
        V, off = m.snap(m.gather(lambda v: p.get_val(m.path[v])))
        hs = [list(nd["sizes"].hs) if nd["kind"] == "rk" else [] for nd in m.nodes]
        ev.append({"op": "values", "V": V, "off": off, "free": projv(x[free]),
                   "hs": hs})
        model_prod = "jvp" if m.mode == "fwd" else "vjp"
        ops = ["totals", "prod", model_prod, rng.choice([model_prod, "prod"])]
        if rng.random() < 0.3:
            ops.append("totals")
        ops = ["totals"] + rng.sample(ops[1:], len(ops) - 1)
        if rng.random() < 0.3:
            ops.insert(0, "prod")
        for op in ops:
            ev.append(OPS[op](rng, m, p, of, wrt, free))
        V, off = m.snap(m.gather(lambda v: p.get_val(m.path[v])))
        ev.append({"op": "kept", "V": V})
    return [{"ev": ev, "nodes": m.json(), "free": [i + 1 for i in free]}]


def totals(rng, m, p, of, wrt, free):
    with quiet():
        J = p.compute_totals(of=of, wrt=wrt)
    cols, off = [], 0
    for v in m.ivc_names:
        for k in range(m.vars[v][2] - m.vars[v][1]):
            col = m.gather(lambda o: (
                J[m.path[o], m.path[v]][:, k] if o not in m.ivc_names else
                np.eye(m.V)[m.vars[v][1] + k][m.vars[o][1]:m.vars[o][2]]))
            c, o = m.snap(col)
            cols.append(c)
            off |= o
    return {"op": "totals", "mode": m.mode, "J": cols, "off": off}


def seedval(rng, m):
    return dyadic(rng) if m.exact else float(rng.randrange(-3, 4))


def jvp(rng, m, p, of, wrt, free):
    d = np.zeros(m.V)
    for i in free:
        d[i] = seedval(rng, m)
    with quiet():
        p.model.run_linearize()
        res = p.compute_jacvec_product(
            of, wrt, "fwd",
            {m.path[v]: d[m.vars[v][1]:m.vars[v][2]].reshape(m.vars[v][0])
             for v in m.ivc_names})
    for v in m.vars:
        if v not in m.ivc_names:
            d[m.vars[v][1]:m.vars[v][2]] = np.asarray(res[m.path[v]]).ravel()
    s, off = m.snap(d)
    return {"op": "jvp", "seed": s, "free": projv(d[free]), "off": off}


def vjp(rng, m, p, of, wrt, free):
    b = np.zeros(m.V)
    for v in m.vars:
        if v not in m.ivc_names and rng.random() < 0.7:
            for i in range(m.vars[v][1], m.vars[v][2]):
                b[i] = seedval(rng, m)
    with quiet():
        p.model.run_linearize()
        res = p.compute_jacvec_product(
            of, wrt, "rev",
            {m.path[v]: b[m.vars[v][1]:m.vars[v][2]].reshape(m.vars[v][0])
             for v in m.vars if v not in m.ivc_names})
    g = np.concatenate([np.asarray(res[m.path[v]]).ravel() for v in m.ivc_names])
    gs, off = m.snap(g)
    return {"op": "vjp", "seed": projv(b), "res": gs, "off": off}


def prod(rng, m, p, of, wrt, free):
    """A product of one integrator with given contents and scope of the vectors."""
    k = rng.choice([i for i, n in enumerate(m.nodes) if n["kind"] == "rk"])
    nd = m.nodes[k]
    comp, lay = nd["comp"], nd["lay"]
    inputs, _, _ = comp.get_nonlinear_vectors()
    d_in, _, d_out = comp.get_linear_vectors()  # the residuals' names are the outputs'
    ins = ([q["name"] + "_initial" for q in lay["quantities"]]
           + [u["name"] for u in lay["params"]] + ["time_initial"])
    outs = [q["name"] + "_final" for q in lay["quantities"]] + ["time_final"]
    mode = rng.choice(["fwd", "rev"])
    full = rng.random()

    def scope(names):
        return [n for n in names if full < 0.25 or rng.random() < 0.6]

    si, so = scope(ins), scope(outs)
    at = {}
    if rng.random() < 0.35:  # at inputs other than those of the last run of the model
        before = inputs.asarray(copy=True)
        for n in ins:
            a = inputs[n]
            if rng.random() < 0.7:
                inputs[n] = np.array([seedval(rng, m) for _ in range(a.size)]
                                     ).reshape(a.shape)
    else:
        before = None
    for vec, names in ((d_in, ins), (d_out, outs)):
        for n in names:
            a = vec[n]
            vec[n] = np.array([seedval(rng, m) for _ in range(a.size)]).reshape(a.shape)

    def flat(vec, names):
        return np.concatenate([np.asarray(vec[n], dtype=float).ravel() for n in names])

    def mask(vec, names, sel):
        return [int(n in sel) for n in names for _ in range(vec[n].size)]

    if before is not None:
        z = projv(flat(inputs, ins))
        n = lay["n"]
        at = {"at": {"x": z[:n], "u": z[n:-1], "t": z[-1]}}
    mi, mo = mask(d_in, ins, si), mask(d_out, outs, so)
    di0, do0 = flat(d_in, ins), flat(d_out, outs)
    keep = d_in._names, d_out._names
    if at:
        nd["sizes"].hs = []
    try:
        d_in._names = {comp.pathname + "." + n for n in si}
        d_out._names = {comp.pathname + "." + n for n in so}
        with quiet():
            comp.compute_jacvec_product(inputs, d_in, d_out, mode)
    finally:
        d_in._names, d_out._names = keep
    if at:
        at["at"]["hs"] = list(nd["sizes"].hs)
    di1, do1 = flat(d_in, ins), flat(d_out, outs)
    d_in.set_val(0.0)
    d_out.set_val(0.0)
    if before is not None:
        inputs.asarray()[:] = before
    return {"op": "prod", **at, "node": k + 1, "mode": mode, "si": mi, "so": mo,
            "di0": projv(di0), "do0": projv(do0), "di1": projv(di1), "do1": projv(do1)}


OPS = {"totals": totals, "jvp": jvp, "vjp": vjp, "prod": prod}
