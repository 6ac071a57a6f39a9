"""C21: the shipped ODEs."""
import random

import numpy as np
import openmdao.api as om

from fx import fixed, fixedv
from rig import quiet
from rkopenmdao.discretized_ode.discretized_ode import (DiscretizedODEInputState,
                                                        DiscretizedODEResultState)
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.odes.kaps import KapsComponent1, KapsComponent2, KapsGroup
from rkopenmdao.odes.prothero_robinson_ode import ProtheroRobinson
from rkopenmdao.odes.simple_linear_ode import SimpleLinearODE

COUNT = {"quick": {"ode": 240, "prod": 160, "implicit": 200, "solution": 160},
         "thorough": {"ode": 5000, "prod": 4000, "implicit": 5000, "solution": 4000}}
SOLVER = 64  # tolerance of nonlinear solvers, units of 2^-24
Z = [0] * 8


def scenarios(tier, seed):
    return [{"s": f"{seed}/{k}/{i}", "k": k}
            for k, n in COUNT[tier].items() for i in range(n)]


def num(rng, lo, hi):
    return round(rng.uniform(lo, hi) * 2**20) / 2**20


def ha(rng, kaps=False):
    h = rng.choice([num(rng, 0.05, 1.0), num(rng, 0.1, 0.4), 0.5, 0.25])
    a = rng.choice([0.0, 0.5, 1.0, 0.25, num(rng, 0.2, 1.0)])
    return h, a


def ev(op, ode, tol=0, **kw):
    return {"op": op, "ode": ode, "tol": tol, "par": Z, "t": Z, "at": Z, **kw}


def make(rng, ode):
    """The ODE as system, and its parameter."""
    if ode == "lin":
        return SimpleLinearODE(), 0.0
    if ode == "pr":
        lam = rng.choice([-100.0, -1.0, -2.5, num(rng, -30, -0.1), 0.25, 1.0, 0.0])
        if rng.random() < 0.25:
            return ProtheroRobinson(), -100.0
        return ProtheroRobinson(lambda_=lam), lam
    eps = rng.choice([1.0, 0.5, 0.125, num(rng, 0.05, 2.0)])
    return KapsGroup(epsilon=eps), eps


NAMES = {"lin": (["y"], ["y_old"], ["y_accumulated_stages"], ["y_stage"]),
         "pr": (["x"], ["x"], ["acc_stages"], ["x_stage"]),
         "kaps": (["y_1", "y_2"], ["y_1_old", "y_2_old"],
                  ["y_1_accumulated_stages", "y_2_accumulated_stages"],
                  ["y_1_stage", "y_2_stage"])}


def pole(ode, par, h, a):
    return ode == "pr" and abs(1 - par * h * a) < 0.2


def run_ode(rng):
    ode = rng.choice(["lin", "pr", "pr", "kaps", "kaps"])
    system, par = make(rng, ode)
    prob = om.Problem(reports=False)
    where = rng.choice(["sub", "promoted", "nested", "preset"])
    model, pre = prob.model, "test_comp."
    if where == "nested":
        model = model.add_subsystem("g", om.Group())
        pre = "g.test_comp."
    if where == "promoted":
        model.add_subsystem("test_comp", system, promotes=["*"])
        pre = ""
    else:
        model.add_subsystem("test_comp", system)
    qs = NAMES[ode][0]
    with quiet():
        prob.setup()
        prob.final_setup()
        o = OpenMDAOODE(prob, qs if rng.random() < 0.7 else qs[::-1])
    n = len(qs)
    tol = SOLVER if ode == "kaps" else 0
    P = {"par": fixed(par)}
    res, points = [], []
    for _ in range(rng.choice([5, 8])):
        op = rng.choice(["stage", "tangent", "adjoint"]) if points else "stage"
        if op == "stage":
            h, a = ha(rng)
            while pole(ode, par, h, a):
                h, a = ha(rng)
            t = num(rng, -3, 3)
            lo = 0.3 if ode == "kaps" else -2
            y = np.array([num(rng, lo, 1.5) for _ in qs])
            acc = np.array([num(rng, -0.4, 0.4) for _ in qs])
            with quiet():
                r = o.compute_update(
                    DiscretizedODEInputState(y, acc, np.zeros(0), t), h, a)
            v = [float(prob.get_val(pre + q)[0]) for q in qs] if ode == "kaps" else []
            k = np.array(r.stage_update, dtype=float)
            # results are where the documentation says
            k2 = [float(prob.get_val(pre + x)[0]) for x in NAMES[ode][3]]
            if k2 != list(k):
                k = np.full(n, np.nan)
            res.append(ev("stage", ode, tol, **P, t=fixed(t), h=fixed(h), a=fixed(a),
                          y=fixedv(y), acc=fixedv(acc), k=fixedv(k), v=fixedv(v)))
            points.append((r.linearization_point, t, v, h, a))
            continue
        lin, t, v, h, a = rng.choice(points)
        y = np.array([num(rng, -2, 2) for _ in qs])
        acc = np.array([num(rng, -2, 2) for _ in qs])
        dt = rng.choice([0.0, 1.0, num(rng, -2, 2)])
        with quiet():
            r = o.compute_update_derivative(
                DiscretizedODEInputState(y, acc, np.zeros(0), dt, lin), h, a)
        k = np.array(r.stage_update, dtype=float)
        if op == "tangent":
            res.append(ev("tangent", ode, 1 if tol else 0, **P, at=fixed(t), t=fixed(dt),
                          h=fixed(h), a=fixed(a), y=fixedv(y), acc=fixedv(acc),
                          k=fixedv(k), v=fixedv(v)))
        else:
            b = np.array([num(rng, -2, 2) for _ in qs])
            with quiet():
                g = o.compute_update_adjoint_derivative(DiscretizedODEResultState(
                    b, np.zeros(n), np.zeros(0), lin), h, a)
            gv = list(g.step_input) + list(g.stage_input) + [float(np.ravel(g.time)[0])]
            res.append(ev("adjoint", ode, 1 if tol else 0, b=fixedv(b), k=fixedv(k),
                          g=fixedv(gv), d=fixedv(list(y) + list(acc) + [dt])))
    return res


class Scope:
    """Contents and scope of a component's linear vectors."""

    def __init__(self, comp):
        self.comp = comp
        self.d_in, self.d_out, self.d_res = comp.get_linear_vectors()

    def __enter__(self):
        self.keep = self.d_in._names, self.d_out._names
        return self

    def limit(self, ins, outs=None):
        p = self.comp.pathname + "."
        self.d_in._names = {p + n for n in ins}
        if outs is not None:
            self.d_out._names = {p + n for n in outs}

    def __exit__(self, *_):
        self.d_in._names, self.d_out._names = self.keep
        for v in (self.d_in, self.d_out, self.d_res):
            v.set_val(0.0)


def run_prod(rng):
    ode = rng.choice(["lin", "pr", "pr"])
    system, par = make(rng, ode)
    prob = om.Problem(reports=False)
    prob.model.add_subsystem("c", system)
    with quiet():
        prob.setup()
        prob.final_setup()
    res = []
    _, old, acc, out = NAMES[ode]
    names = [old[0], acc[0]] + (["time"] if ode == "pr" else [])
    for _ in range(6):
        h, a = ha(rng)
        while pole(ode, par, h, a):
            h, a = ha(rng)
        t = num(rng, -3, 3)
        system.om_data_exchange.step_size = h
        system.om_data_exchange.stage_factor = a
        for n in names:
            prob.set_val("c." + n, num(rng, -2, 2))
        if ode == "pr":
            prob.set_val("c.time", t)
        with quiet():
            prob.run_model()
        if rng.random() < 0.4:
            y, ac = (float(prob.get_val("c." + n)[0]) for n in names[:2])
            res.append(ev("stage", ode, par=fixed(par), t=fixed(t), h=fixed(h),
                          a=fixed(a), y=[fixed(y)], acc=[fixed(ac)],
                          k=[fixed(prob.get_val("c." + out[0])[0])], v=[]))
        mode = rng.choice(["fwd", "rev"])
        s = [int(rng.random() < 0.7) for _ in range(3)] + [1]
        inputs, _, _ = system.get_nonlinear_vectors()
        with Scope(system) as sc:
            d0 = [num(rng, -2, 2) for _ in names]
            o0 = num(rng, -2, 2)
            for n, v in zip(names, d0):
                sc.d_in[n] = v
            sc.d_res[out[0]] = o0
            sc.limit([n for n, f in zip(names, s) if f])
            system.compute_jacvec_product(inputs, sc.d_in, sc.d_res, mode)
            sc.d_in._names = sc.keep[0]
            d1 = [float(sc.d_in[n][0]) for n in names]
            o1 = float(sc.d_res[out[0]][0])
        res.append(ev("prod", ode, par=fixed(par), at=fixed(t), h=fixed(h), a=fixed(a),
                      mode=mode, s=s, d0=fixedv(d0), d1=fixedv(d1), o0=fixed(o0),
                      o1=fixed(o1)))
    return res


def run_implicit(rng):
    first = rng.random() < 0.5
    ode = "kaps1" if first else "kaps2"
    eps = rng.choice([1.0, 0.5, 0.125, num(rng, 0.05, 2.0)])
    comp = KapsComponent1(epsilon=eps) if first else KapsComponent2()
    q, other = ("y_1", "y_2") if first else ("y_2", "y_1")
    prob = om.Problem(reports=False)
    prob.model.add_subsystem("c", comp)
    with quiet():
        prob.setup()
        prob.final_setup()
    ins = [q + "_old", q + "_accumulated_stages", other]
    outs = [q, q + "_stage"]
    res = []
    for _ in range(5):
        h, a = ha(rng)
        comp.om_data_exchange.step_size = h
        comp.om_data_exchange.stage_factor = a
        y, acc, x = num(rng, 0.2, 1.5), num(rng, -0.15, 0.4), num(rng, 0.1, 1.5)
        for n, v in zip(ins, (y, acc, x)):
            prob.set_val("c." + n, v)
        base = {"par": fixed(eps), "h": fixed(h), "a": fixed(a)}
        with quiet():
            prob.run_model()
        inputs, outputs, residuals = comp.get_nonlinear_vectors()
        res.append(ev("stage", ode, **base, y=[fixed(y)], acc=[fixed(acc)], **{"in": fixed(x)},
                      k=[fixed(outputs[outs[1]][0])], v=[fixed(outputs[q][0])]))

        def resid():
            comp.apply_nonlinear(inputs, outputs, residuals)
            return [float(residuals[n][0]) for n in outs]

        with quiet():
            res.append(ev("zeros", ode, r=fixedv(resid())))
            if rng.random() < 0.7:  # anywhere else
                for vec, names in ((inputs, ins), (outputs, outs)):
                    for n in names:
                        vec[n] = num(rng, 0.1, 1.5)
            d = [num(rng, 0.5, 2) for _ in ins + outs]
            jac = [[], []]
            for n, dv in zip(ins + outs, d):
                vec = inputs if n in ins else outputs
                keep = float(vec[n][0])
                vec[n] = keep + dv
                rp = resid()
                vec[n] = keep - dv
                rm = resid()
                vec[n] = keep
                for i in range(2):
                    jac[i].append(fixed(rp[i] - rm[i]))
            comp.run_linearize()
        mode = rng.choice(["fwd", "rev"])
        sv = [int(rng.random() < 0.75) for _ in d]
        with Scope(comp) as sc:
            r0 = [num(rng, -2, 2) for _ in outs]
            p0 = d if mode == "fwd" else [num(rng, -2, 2) for _ in d]
            for n, v in zip(ins + outs, p0):
                (sc.d_in if n in ins else sc.d_out)[n] = v
            for n, v in zip(outs, r0):
                sc.d_res[n] = v
            sc.limit([n for n, f in zip(ins, sv) if f],
                     [n for n, f in zip(outs, sv[len(ins):]) if f])
            comp.apply_linear(inputs, outputs, sc.d_in, sc.d_out, sc.d_res, mode)
            sc.d_in._names, sc.d_out._names = sc.keep
            r1 = [float(sc.d_res[n][0]) for n in outs]
            p1 = [float((sc.d_in if n in ins else sc.d_out)[n][0]) for n in ins + outs]
        e = {"jac": jac, "d": fixedv(d), "mode": mode, "sv": sv, "sr": [1, 1],
             "r0": fixedv(r0), "r1": fixedv(r1)}
        if mode == "fwd":
            e["d1"] = fixedv(p1)
        else:
            e["p0"], e["p1"] = fixedv(p0), fixedv(p1)
        res.append(ev("apply", ode, **e))
        # solves are at the last linearization
        with Scope(comp) as sc:
            mode = rng.choice(["fwd", "rev"])
            rhs = [num(rng, -2, 2) for _ in outs]
            src, dst = (sc.d_res, sc.d_out) if mode == "fwd" else (sc.d_out, sc.d_res)
            for n, v in zip(outs, rhs):
                src[n] = v
                dst[n] = num(rng, -2, 2)  # a guess, to be ignored
            comp.solve_linear(sc.d_out, sc.d_res, mode)
            kept = [float(src[n][0]) for n in outs]
            src.set_val(0.0)
            sc.d_in.set_val(0.0)
            comp.apply_linear(inputs, outputs, sc.d_in, sc.d_out, sc.d_res, mode)
            back = [float(src[n][0]) for n in outs]
        if kept != rhs:
            back = [np.nan] * 2
        res.append(ev("solve", ode, mode=mode, r=fixedv(rhs), back=fixedv(back)))
    return res


def run_solution(rng):
    res = []
    for _ in range(5):
        ode = rng.choice(["lin", "pr", "pr", "kaps", "kaps"])
        par, kw = 0.0, {}
        t0 = rng.choice([0.0, num(rng, -2, 2), num(rng, 0, 1)])
        t = t0 + rng.choice([0.0, num(rng, 0, 2), num(rng, -1, 2)])
        form = rng.choice(["all", "all", "all", "no t0", "default"])
        if form != "all":
            t0, t = 0.0, t - t0
        y0 = [num(rng, -2, 2)]
        if ode == "lin":
            f = SimpleLinearODE.simple_linear_solution
            if form == "default":
                y0 = [1.0]
        elif ode == "pr":
            f = ProtheroRobinson.solution
            if rng.random() < 0.7:
                par = rng.choice([0.0, -1.0, num(rng, -30, 1)])
                kw = {"lambda_": par}
            else:
                par = -100.0
            if par * (t - t0) > 4:
                t = t0 + abs(t - t0)
            if form == "default":
                y0 = [float(np.sin(np.pi / 4))]
        else:
            f = KapsGroup.kaps_solution
            y2 = num(rng, -1.5, 2)
            y0 = [y2 * y2, y2]
            if t == t0 and rng.random() < 0.7:
                y0 = [num(rng, -2, 2), y2]
            if form == "default":
                y0 = [1.0, 1.0]
        arg = rng.choice(["array", "arrays"]) if ode == "kaps" else rng.choice(
            ["float", "array"])
        iv = (y0[0] if arg == "float" else np.array(y0) if arg == "array"
              else [np.array([v]) for v in y0])
        args = {"all": (iv, t0), "no t0": (iv,), "default": ()}[form]
        x = np.ravel(np.asarray(f(t, *args, **kw), dtype=float))
        res.append(ev("solution", ode, par=fixed(par), t=fixed(t), t0=fixed(t0),
                      y0=fixedv(y0), x=fixedv(x)))
    for ode, c in (("pr", ProtheroRobinson), ("kaps", KapsGroup)):
        res.append(ev("start", ode, x=fixedv(np.ravel(c.get_initial_values()))))
    t = num(rng, -4, 4)
    res.append(ev("func", "pr", t=fixed(t), phi=fixed(ProtheroRobinson.phi(t)),
                  dphi=fixed(ProtheroRobinson.d_phi(t))))
    return res


def run(sc):
    rng = random.Random(sc["s"])
    return [{"ev": globals()["run_" + sc["k"]](rng)}]
