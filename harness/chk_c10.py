"""C10: integration ends at its termination criterion, not before or after."""
import random

import numpy as np

import ctl
from rig import random_tableau
from rkopenmdao import error_controllers as ec
from rkopenmdao.callback import Callback
from rkopenmdao.error_controller import ErrorController, ErrorControllerConfig
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer
from rkopenmdao.errors import ErrorControllerError
from adapt import mix
from rkopenmdao.termination_criterion import TerminationCriterion
from scen import Conf


def scenarios(tier, seed):
    res = []
    k = 1 if tier == "quick" else 12
    for rep in range(k):
        for n in list(range(0, 14)) + [25]:
            for ck in ["all", "none", "pyrevolve"]:
                if n == 0 and ck == "pyrevolve":
                    continue
                for ad in (0, 1):
                    res.append({"N": n, "ck": ck, "ad": ad})
    for i in range(220 * k):
        res.append({"N": -1, "ck": ["all", "none"][i % 2], "ad": 0})
    for i in range(420 * k):
        res.append({"N": -1, "ck": ["all", "all", "none"][i % 3], "ad": 1})
    for i in range(180 * k):
        res.append({"N": -2, "ck": ["all", "none"][i % 2], "ad": i % 3 == 0})
    for i, sc in enumerate(res):
        sc["s"] = f"{seed}/{i}"
    return res


def bits(st):
    return pack(st.discretization_state.final_state)


def pack(x):
    """The values in an order that does not depend on where the quantities are kept."""
    return np.sort(np.asarray(x, dtype=float)).tobytes()


class Own(TerminationCriterion):
    """Ends after some accepted step, for no apparent reason."""

    def __init__(self, seed, sink):
        self.seed, self.sink = seed, sink

    def is_iteration_finished(self, iteration, time_integration_state):
        b = bits(time_integration_state)
        ans = iteration >= 9 or mix(self.seed, int(iteration), b) % 4 == 0
        self.sink.append(("ask", int(iteration), float(
            time_integration_state.discretization_state.final_time[0]), b, int(ans)))
        return ans


class Times(Callback):
    def __init__(self, sink):
        self.sink = sink

    def before_iteration(self, iteration, time_integration_state, ode,
                         discretization_scheme):
        self.sink.append(("before", int(iteration), float(
            time_integration_state.discretization_state.final_time[0]),
            bits(time_integration_state)))

    def after_iteration(self, iteration, time_integration_state, ode,
                        discretization_scheme):
        self.sink.append(("after", int(iteration), float(
            time_integration_state.discretization_state.final_time[0]),
            bits(time_integration_state)))


class Endless(RuntimeError):
    pass


class Watch(ErrorController):
    """Notices a trial being repeated unchanged without end."""

    def __init__(self, real):
        super().__init__(alpha=0.0, config=real.config)
        self.real, self.same, self.last, self.total = real, 0, None, 0

    def reset(self):
        if hasattr(self.real, "reset"):
            self.real.reset()

    def __call__(self, *, error_measure, delta_t, remaining_time, error_history,
                 step_size_history):
        key = (float(error_measure), float(delta_t), tuple(map(float, error_history)),
               tuple(map(float, step_size_history)))
        self.same = self.same + 1 if key == self.last else 0
        self.last = key
        self.total += 1
        if self.same > 3000 or self.total > 30000:
            raise Endless()
        return self.real(error_measure=error_measure, delta_t=delta_t,
                         remaining_time=remaining_time, error_history=error_history,
                         step_size_history=step_size_history)


def adaptive_kw(rng, horizon):
    names = [rng.choice(ctl.NAMES[1:]) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    if rng.random() < 0.5:
        names[-1] = "integral"
    cfg = ErrorControllerConfig(tol=rng.choice([4000.0, 20000.0, 800.0, 1e6]),
                                lower_bound=rng.choice([0.01, 0.02, 0.05]) * horizon,
                                upper_bound=rng.choice([1.0, 0.3, 10.0, np.inf]),
                                safety_factor=rng.choice([0.95, 1.0, 0.8]),
                                max_iter=rng.choice([0, 1, 2, 5]))
    holder = []

    def wrap(f, last):
        def g(p, config=cfg, base=None, **kw):
            r = f(p=p, config=config, base=base)
            if last:
                holder.append(Watch(r))
                return holder[-1]
            return r
        return g

    fs = [wrap(getattr(ec, nm), i == len(names) - 1) for i, nm in enumerate(names)]
    return dict(error_controller=fs, error_controller_options={"config": cfg},
                error_measurer=rng.choice([SimpleErrorMeasurer(),
                                           ImprovedErrorMeasurer(1.0, 1.0)])), cfg


def run(sc):
    rng = random.Random(sc["s"])
    ad = bool(sc["ad"])
    c = Conf(rng, tab=random_tableau(rng, s=rng.choice([1, 2, 3]), embedded=ad),
             n_steps=max(1, sc["N"]))
    c.n_callbacks = 0
    x, u, t0 = c.point(rng)
    dyad = rng.random() < 0.4
    if not dyad:
        t0 = rng.choice([0.0, rng.uniform(-3, 3), 0.1])
    h = rng.choice([0.5, 0.25, 0.375]) if dyad else rng.choice(
        [0.1, 0.3, rng.uniform(0.05, 0.7)])
    horizon = rng.choice([1.0, 2.5, 0.75, 0.5]) if dyad else rng.uniform(0.6, 3.0)
    if not ad and rng.random() < 0.15:
        horizon = rng.choice([0.0, -1.0, 0.05])
    if rng.random() < 0.25:
        horizon = h * rng.randint(1, 9)
    tend = t0 + horizon
    sink = []
    opts = {"compute_callbacks": [Times(sink)],
            "compute_jacvec_product_fwd_callbacks": [Times(sink)],
            "compute_jacvec_product_rev_callbacks": [Times(sink)]}
    if ad:
        if sc["N"] == -1:
            if rng.random() < 0.7:
                h = min(h, horizon * rng.choice([1.0, 1.0, 0.5]))
            else:  # the first step leads beyond the end
                h = horizon * rng.choice([1.25, 2.0, 7.0])
        kw, _ = adaptive_kw(rng, abs(horizon) or 1.0)
        opts.update(kw)
    term = (dict(n_steps=sc["N"]) if sc["N"] >= 0 else dict(final_time=tend)
            if sc["N"] == -1 else dict(n_steps=None, criterion=Own(sc["s"], sink)))
    r = c.rig(h=h, checkpointing=sc["ck"], adaptive=ad, integrator_options=opts, **term)
    r.c_set(x, u, t0)
    raw = []
    ops = ["run", "fwd"] if sc["ck"] == "none" else rng.sample(["run", "fwd", "run"], 3)
    if sc["ck"] != "none":
        ops.append("rev")
        if ops[-2] != "run":
            ops.insert(-1, "run")
    tf = None
    for op in ops:
        sink.clear()
        raw.append(("begin", op))
        try:
            if op == "run":
                tf = r.c_run()[1]
            elif op == "fwd":
                r.c_fwd(*c.direction(rng))
            else:
                r.c_rev(*c.seed(rng))
        except (ErrorControllerError, RecursionError):
            raw.append(("raised",))
            break
        except Endless:
            raw.append(("endless",))
            break
        if op == "rev":
            # recomputation calls the run callbacks as well: count descending pairs
            raw.append(("rev", list(sink)))
        else:
            raw += sink
            last = [q for q in sink if q[0] == "after"]
            raw.append(("end", tf if op == "run" else last[-1][2] if last else t0))
    times = {t0}
    if sc["N"] == -1:
        times.add(tend)
    for e in raw:
        if e[0] in ("before", "after", "ask"):
            times.add(e[2])
        elif e[0] == "end":
            times.add(e[1])
    rank = {t: i for i, t in enumerate(sorted(times))}
    toks = {pack(x): 0}
    ev = []
    for e in raw:
        if e[0] == "begin":
            ev.append({"op": "begin", "what": e[1]})
        elif e[0] in ("before", "after"):
            ev.append({"op": e[0], "k": e[1], "t": rank[e[2]],
                       "x": toks.setdefault(e[3], len(toks))})
        elif e[0] == "ask":
            ev.append({"op": "ask", "k": e[1], "t": rank[e[2]], "ans": e[4],
                       "x": toks.setdefault(e[3], len(toks))})
        elif e[0] == "end":
            near = sc["N"] != -1 or abs(e[1] - tend) <= 1e-9 * max(1.0, abs(tend))
            ev.append({"op": "end", "t": rank[e[1]], "near": int(near)})
        elif e[0] == "rev":
            if sc["ck"] == "all":
                n = sum(q[0] == "before" for q in e[1])
                ev.append({"op": "revstep", "count": n})
        elif e[0] == "raised":
            ev.append({"op": "raised", "kind": 1})
        else:
            ev.append({"op": "endless"})
    return [{"N": sc["N"], "tend": rank.get(tend, 0), "t0": rank[t0], "adaptive": int(ad),
             "hit": int(ad and sc["N"] == -1), "ev": ev}]
