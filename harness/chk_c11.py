"""C11: callbacks see every step once, in order, with the true data."""
import contextlib
import io
import random
import re
import time

import chk_c07
import rig
from rig import random_tableau
from rkopenmdao.callback import Callback, IterationLogging, WallClockMeasurement
from scen import Conf
from zp import proj, projv


def scenarios(tier, seed):
    k = 1 if tier == "quick" else 10
    res = []
    for i in range(400 * k):
        res.append({"s": f"{seed}/{i}", "kind": "fixed"})
    for i in range(120 * k):
        res.append({"s": f"{seed}/a{i}", "kind": "adapt", "real": i % 2, "time": 0})
    for i in range(60 * k):
        res.append({"s": f"{seed}/r{i}", "kind": "report"})
    return res


class Around(Callback):
    """Calls the shipped callbacks and notes what they print and when."""

    def __init__(self, name, ev):
        self.log, self.clock = IterationLogging(name), WallClockMeasurement()
        self.name, self.ev = name, ev

    def call(self, w, *args):
        out = [io.StringIO(), io.StringIO()]
        with contextlib.redirect_stdout(out[0]):
            getattr(self.log, w + "_iteration")(*args)
        t0 = time.perf_counter()
        with contextlib.redirect_stdout(out[1]):
            getattr(self.clock, w + "_iteration")(*args)
        t1 = time.perf_counter()
        lo = hi = 0
        if w == "before":
            self.t = t0, t1
        else:
            lo, hi = t0 - self.t[1], t1 - self.t[0]
        words = out[0].getvalue().split()
        phase = {"starting": "before", "finishing": "after"}.get(
            words[0].lower() if words else "", "none")
        num = re.findall(r"<(\d+)>", out[0].getvalue())
        name = [n for n in NAMES if n in out[0].getvalue()]
        took = re.findall(r"[-+]?\d*\.?\d+(?:e[-+]?\d+)?", out[1].getvalue())
        self.ev.append({"op": "around", "w": w, "given": self.name,
                        "k": int(args[0]),
                        "logged": [phase, int(num[0]) if len(num) == 1 else -1,
                                   name[0] if len(name) == 1 else ""],
                        "clocked": [round(min(float(x), 200.0) * 1e7) for x in took],
                        "lo": int(lo * 1e7) - 1, "hi": int(hi * 1e7) + 2})

    def before_iteration(self, iteration, time_integration_state, ode,
                         discretization_scheme):
        self.call("before", iteration, time_integration_state, ode,
                  discretization_scheme)

    def after_iteration(self, iteration, time_integration_state, ode,
                        discretization_scheme):
        self.call("after", iteration, time_integration_state, ode, discretization_scheme)


NAMES = ["the run", "tangents", "adjoints", "compute"]
KINDS = ["", "_jacvec_product_fwd", "_jacvec_product_rev"]


NULL = rig._DEVNULL


class Lines(io.StringIO):
    """Notes the lines of the default callbacks among all that is printed."""

    def __init__(self, names, ev):
        super().__init__()
        self.names, self.ev, self.open, self.t = names, ev, "", time.perf_counter()

    def fileno(self):
        return NULL.fileno()

    def write(self, text):
        *lines, self.open = (self.open + text).split("\n")
        for ln in lines:
            num = re.findall(r"step <(\d+)>", ln)
            took = re.findall(r"took ([-+.\de]+) seconds", ln)
            if num:
                phase = {"starting": "before", "finishing": "after"}.get(
                    ln.split()[0].lower(), "none")
                name = max((n for n in self.names if n in ln), key=len, default="")
                self.ev.append({"op": "around", "w": phase, "given": name,
                                "k": int(num[0]), "logged": [phase, int(num[0]), name],
                                "clocked": [], "lo": 0, "hi": 0})
                if phase == "before":
                    self.t = time.perf_counter()
            if took and self.ev:
                self.ev[-1].setdefault("clocked", []).extend(
                    round(min(float(x), 200.0) * 1e7) for x in took)
                self.ev[-1]["hi"] = int((time.perf_counter() - self.t) * 1e7) + 20000
        return len(text)


def report(sc):
    rng = random.Random(sc["s"])
    c = Conf(rng, tab=random_tableau(rng, s=rng.choice([1, 2])), max_n=7)
    c.n_callbacks = 0
    ev = []
    names = rng.sample(NAMES, 3)
    default = rng.random() < 0.4
    if default:  # nothing is requested: both are there, named like the functions
        names = [f"compute{k}" for k in KINDS]
    r = c.rig(checkpointing=rng.choice(["all", "pyrevolve"]), integrator_options={
        f"compute{k}_callbacks": None if default else [Around(nm, ev)]
        for k, nm in zip(KINDS, names)})
    if default:
        rig._DEVNULL = Lines(names, ev)
    try:
        operations(rng, c, r, ev)
    finally:
        rig._DEVNULL = NULL
    return [{"spec": "TraceReport", "ev": ev, "N": c.n_steps, "names": names}]


def operations(rng, c, r, ev):
    r.c_set(*c.point(rng))
    for op in ["run"] + [rng.choice(["run", "fwd", "rev"]) for _ in range(3)]:
        ev.append({"op": "begin", "what": op})
        if op == "run":
            r.c_run()
        elif op == "fwd":
            r.c_fwd(*c.direction(rng))
        else:
            r.c_rev(*c.seed(rng))
        ev.append({"op": "end"})


def run(sc):
    if sc["kind"] == "report":
        return report(sc)
    if sc["kind"] == "adapt":
        out = chk_c07.run(sc)
        for t in out:
            t["spec"] = "TraceAdapt"
        return out
    rng = random.Random(sc["s"])
    c = Conf(rng, tab=random_tableau(rng, s=rng.choice([1, 2, 2, 3]),
                                     embedded=rng.random() < 0.5), max_n=rng.choice([7, 7, 12]))
    c.n_callbacks = rng.choice([1, 1, 2, 3])
    ck = rng.choice(["all", "all", "pyrevolve", "pyrevolve", "single"])
    kw = dict(checkpointing=ck)
    if ck == "single":
        kw = dict(checkpointing="pyrevolve", checkpoint_options={
            "revolver_type": "SingleLevel", "revolver_options": {"n_checkpoints": 1}})
    elif ck == "pyrevolve" and rng.random() < 0.5:
        kw["checkpoint_options"] = {"revolver_options": {
            "n_checkpoints": rng.randint(1, c.n_steps)}}
    r = c.rig(**kw)
    ev = []
    for op in ["set"] + [rng.choice(["run", "fwd", "rev", "run", "set"])
                         for _ in range(5)]:
        if op == "set":
            x, u, t = c.point(rng)
            r.c_set(x, u, t)
            ev.append({"op": "set", "x": projv(x), "u": projv(u), "t": proj(t)})
            continue
        r.log.clear()
        r.rec.evals.clear()
        ev.append({"op": "begin", "what": op})
        if op == "run":
            r.c_run()
        elif op == "fwd":
            r.c_fwd(*c.direction(rng))
        else:
            r.c_rev(*c.seed(rng))
        for q in r.log:
            ev.append({"op": "cb", "m": q["mode"], "id": q["id"], "w": q["when"],
                       "sh": projv(q["obj"][0]),
                       **{k: q[k] for k in ("k", "x0", "x1", "t0", "t1", "K", "T", "u",
                                            "emb", "nev")}})
        ev.append({"op": "end"})
    d = c.json()
    d.update(ev=ev, N=c.n_steps, h=proj(c.h), nc=c.n_callbacks)
    return [d]
