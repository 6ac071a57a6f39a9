"""Adaptive integrations with every trial recorded."""
import hashlib
import math

import numpy as np

import ctl
from rig import random_tableau, whole
from rkopenmdao.error_controller import (ErrorController, ErrorControllerConfig,
                                         ErrorControllerStatus)
from rkopenmdao.error_measurer import ErrorMeasurer
from rkopenmdao.errors import ErrorControllerError
from scen import Conf, merge
import zp
from zp import proj, projv

MAX_TRIALS = 150


def mix(seed, *what):
    d = hashlib.sha256(repr((seed,) + what).encode()).digest()
    return int.from_bytes(d[:6], "big")


class Measure(ErrorMeasurer):
    """Error measure that is a power of two determined by the error estimate."""

    def __init__(self, seed, lt, bias, log, fine=False):
        self.seed, self.lt, self.bias, self.log = seed, lt, bias, log
        self.fine = fine  # many digits, slightly less than the power of two

    def get_measure(self, state_error_estimate, state, ode):
        er = projv(state_error_estimate.stage_state)
        v = mix(self.seed, er)
        bad = v % 100 < self.bias
        lm = self.lt + 4 * ((v // 100) % 3 + 1 if bad else -((v // 100) % 4))
        m = ctl.val(lm) * (1.0 - self.fine * (v % 4093) * 2.0**-40)
        self.log.append({"er": er, "xs": projv(state.stage_state),
                         "m": proj(m), "lm": lm})
        return m


class Spy(ErrorController):
    """Records the calls of the controllers it stands for."""

    def __init__(self, real, rec, sink, p):
        super().__init__(alpha=0.0, config=real.config)
        self.real, self.rec, self.sink, self.p = real, rec, sink, p

    def reset(self):
        if hasattr(self.real, "reset"):
            self.real.reset()

    def __call__(self, *, error_measure, delta_t, remaining_time, error_history,
                 step_size_history):
        rem = float(np.ravel(remaining_time)[0])
        e = {"op": "trial", "ma": proj(error_measure), "dt": proj(delta_t),
             "eh": projv(error_history), "sh": projv(step_size_history),
             "rem": proj(rem), "ev": merge(self.rec.evals),
             "ur": ctl.units(rem, self.p), "urh": ctl.units(rem + delta_t, self.p),
             "fdt": float(delta_t), "frem": rem}
        self.sink.trial(e)
        self.rec.evals.clear()
        try:
            s = self.real(error_measure=error_measure, delta_t=delta_t,
                          remaining_time=remaining_time, error_history=error_history,
                          step_size_history=step_size_history)
        except ErrorControllerError:
            self.sink.gave_up()
            raise
        sg = float(np.ravel(s.step_size_suggestion)[0])
        e.update(sg=proj(sg), us=ctl.units(sg, self.p), acc=int(bool(s.acceptance)),
                 lsg=round(4 * math.log2(sg)) if sg > 0 else -ctl.BIG, fsg=sg)
        return s


class Scripted(ErrorController):
    """Decides by a function of its arguments, with dyadic step sizes."""

    def __init__(self, seed, choices, config):
        super().__init__(alpha=0.0, config=config)
        self.seed, self.choices = seed, choices

    def __call__(self, *, error_measure, delta_t, remaining_time, error_history,
                 step_size_history):
        ok = bool(error_measure <= self.config.tol)
        v = mix(self.seed, float(error_measure), float(delta_t),
                [float(a) for a in error_history],
                [float(a) for a in step_size_history])
        ok = ok or delta_t <= 2.0**-6
        sg = self.choices[v % len(self.choices)]
        if not ok:  # few digits keep the times exact
            sg = math.floor(delta_t * [0.5, 0.25, 0.75][v % 3] * 2.0**9) / 2.0**9
        rem = float(np.ravel(remaining_time)[0])
        sg = min(sg, rem + (0.0 if ok else delta_t))
        return ErrorControllerStatus(sg, ok)


class TooMany(RuntimeError):
    pass


class Adapt:
    """One integrator with recorded adaptive control."""

    def __init__(self, c: Conf, rng, *, real, n_steps=None, final_time=None, seed=0,
                 bias=40, checkpointing="all", quiet_eval=False, h0=None, lb=None,
                 extra_callbacks=()):
        self.c, self.real = c, real
        self.ev, self.pending, self.mode = [], [], None
        lt = 4 * rng.randint(-2, 2)
        p = min(c.tab.get("p", 2), c.tab.get("phat", 1))
        self.p = p
        nctl = rng.choice([1, 2, 2, 3]) if real else 1
        self.lh0 = 4 * rng.choice([-1, 0, 0, 1]) if h0 is None else h0
        lb = lb or 4 * rng.randint(-7, -4)
        self.cf = {"lt": lt, "lb": lb, "ub": 4 * rng.choice([1, 2, 2]), "usf": 0,
                   "max": rng.choice([0, 1, 2])}
        num = whole if c.ints else float
        cfg = ErrorControllerConfig(num(ctl.val(lt)), num(ctl.val(lb)),
                                    num(ctl.val(self.cf["ub"])), num(1.0),
                                    self.cf["max"])
        # integer exponents keep the step sizes powers of two
        self.g = [[8 * rng.randint(0, 2), 8 * rng.randint(-1, 1), 8 * rng.randint(-1, 1),
                   8 * rng.randint(-1, 1), 8 * rng.randint(-1, 1)] for _ in range(nctl)]
        measures = self.measures = []
        self.seen_p = []
        sink = self

        def factory(i):
            def f(p, config=cfg, base=None, **kw):
                self.seen_p.append(int(p))
                if real:
                    r = ctl.make("direct", self.g[i], p, config, base)
                else:
                    r = Scripted(seed, [0.5, 0.25, 0.125, 0.375, 0.75, 1.0], config)
                if i == nctl - 1:
                    return Spy(r, self.rec, sink, self.p)
                return r
            return f

        self.rec = zp.Recorder()
        kw = (dict(n_steps=n_steps) if n_steps is not None else
              dict(final_time=num(final_time)))
        self.n_steps, self.final_time = n_steps, final_time
        self.rig = c.rig(
            **kw, h=num(ctl.val(self.lh0)), rec=self.rec, checkpointing=checkpointing,
            adaptive=True, extra_callbacks=extra_callbacks, integrator_options=dict(
                error_controller=[factory(i) for i in range(nctl)],
                error_controller_options={"config": cfg},
                error_measurer=Measure(seed, lt, bias, measures, not real)))
        self.trials = 0
        self.nctl = nctl

    # sinks -------------------------------------------------------------------
    def trial(self, e):
        self.flush_cb()
        self.trials += 1
        if self.trials > MAX_TRIALS:
            raise TooMany("too many trials")
        m = self.measures.pop() if self.measures else {"er": [], "xs": [], "m": -2,
                                                       "lm": 0}
        self.measures.clear()
        e.update(m)
        if self.mode != "run":
            e.pop("ev")
        self.ev.append(e)

    def gave_up(self):
        self._gave = self.ev.pop()

    def flush_cb(self):
        for q in self.rig.log:
            if q["id"] != 0 or q["mode"] != self.mode or q["mode"] == "rev":
                continue
            sh, eh, sg = q["obj"]
            e = {"op": q["when"], "k": q["k"], "x1": q["x1"], "t1": q["t1"],
                 "sh": projv(sh), "eh": projv(eh), "sg": projv(sg)[0]}
            if q["when"] == "after":
                e.update(x0=q["x0"], t0=q["t0"], K=q["K"])
            self.ev.append(e)
        self.rig.log.clear()

    def op(self, what, args=()):
        """Returns False if the chain of controllers gave up."""
        self.mode, self.trials = what, 0
        self.ev.append({"op": "begin", "what": what, "short": int(
            self.final_time is not None
            and self.final_time - self.t_start < ctl.val(self.lh0))})
        self.rig.log.clear()
        self.rec.evals.clear()
        try:
            if what == "run":
                out = self.rig.c_run()
                self.flush_cb()
                self.ev.append({"op": "endrun", "x": projv(out[0]), "t": proj(out[1])})
            elif what == "fwd":
                out = self.rig.c_fwd(*args)
                self.flush_cb()
                self.ev.append({"op": "endfwd", "dx": projv(args[0]), "du": projv(args[1]),
                                "dt": proj(args[2]), "x": projv(out[0]),
                                "t": proj(out[1])})
            else:
                out = self.rig.c_rev(*args)
                self.ev.append({"op": "endrev", "bx": projv(args[0]), "bt": proj(args[1]),
                                "x": projv(out[0]), "u": projv(out[1]),
                                "t": proj(out[2])})
        except ErrorControllerError:
            self.ev.append(dict(self._gave, op="gaveup"))
            return False
        except TooMany:
            # the last controller sees no way: whether this ends is up to C10
            if not self.real or self.ev[-2]["dt"] != self.ev[-1]["dt"]:
                raise
            return False
        return True

    def sizes(self):
        """Accepted step sizes of the last operation."""
        last = max(i for i, e in enumerate(self.ev) if e["op"] == "begin")
        return [e["dt"] for e in self.ev[last:] if e["op"] == "trial" and e["acc"] == 1]

    def set(self, x, u, t):
        self.rig.c_set(x, u, t)
        self.t_start = t
        self.ev.append({"op": "set", "x": projv(x), "u": projv(u), "t": proj(t)})

    def trace(self):
        for e in self.ev:
            for k in ("fdt", "frem", "fsg"):
                e.pop(k, None)
        d = self.c.json()
        d.update(ev=self.ev, real=int(self.real), N=-1 if self.n_steps is None else
                 self.n_steps, tend=-1 if self.final_time is None else
                 proj(self.final_time), h0=proj(ctl.val(self.lh0)), lh0=self.lh0,
                 tol=proj(ctl.val(self.cf["lt"])), cf=self.cf, g=self.g,
                 nctl=self.nctl, p=self.p, ps=self.seen_p[-self.nctl:])
        return d


def adaptive_rk(rng, ops, checkpointing="all"):
    """Trace for TraceRK of an adaptive integrator; ops: of run, fwd, rev."""
    tab = random_tableau(rng, s=rng.choice([1, 2, 2, 3, 4]), embedded=True)
    c = Conf(rng, tab=tab)
    pt = c.point(rng)
    end = (dict(n_steps=rng.randint(1, 6)) if checkpointing == "pyrevolve"
           or rng.random() < 0.6 else
           dict(final_time=pt[2] + rng.choice([0.5, 1.0, 1.5, 2.625])))
    a = Adapt(c, rng, real=False, seed=rng.random(), bias=rng.choice([20, 40]),
              checkpointing=checkpointing, **end)
    ev, hs = [], []
    for op in ops:
        if op == "set":
            a.set(*pt)
            ev.append(a.ev[-1])
            pt = c.point(rng) if "final_time" not in end else pt
            continue
        arg = {"run": (), "fwd": c.direction(rng), "rev": c.seed(rng)}[op]
        a.op(op, arg)
        e = dict(a.ev[-1], op=op)
        if op == "run":
            e.update(hs=a.sizes(), evs=1)
        ev.append(e)
    return {**c.json(), "N": -1, "h": -1, "ev": ev}
