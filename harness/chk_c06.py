"""C06: repeatable results, integrators isolated from each other and from the user."""
import copy
import dataclasses
import functools
import json
import os
import random

import numpy as np

from chk_c04 import tok, variant
from rig import CHECKPOINTERS, make_tableau, random_tableau
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_controllers import h0_211, h_211, integral, pc, pseudo
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.termination_criterion import (PredefinedFinalTime,
                                              PredefinedNumberOfSteps)
from scen import Conf
from zp import Failure

KINDS = ["adaptive", "mem", "mix", "adaptmem", "single", "plain", "adapttime"]
POOL = 4


def scenarios(tier, seed):
    h = json.load(open(os.environ["HIST_FILE"]))
    res = []
    for i, x in enumerate(h["gen"]):
        res.append({"h": x, "kind": KINDS[i % 7], "pool": (i // 7) % POOL, "seed": seed})
    for i, x in enumerate(h["sim"]):
        res.append({"h": x, "kind": KINDS[i % 7], "pool": i % POOL, "seed": seed})
    return res


def make_objs(kind, rng):
    """The objects a user builds once and hands to several integrators."""
    adaptive = kind.startswith("adapt")
    tab = random_tableau(rng, s=2, embedded=adaptive or rng.random() < 0.3)
    n = rng.choice([2, 3, 4])
    term = (PredefinedFinalTime(4.0) if kind == "adapttime"
            else PredefinedNumberOfSteps(n))
    o = {
        "tableau": make_tableau(tab),
        "integration_config": IntegrationConfig(adaptive, term, rng.choice([0.5, 0.25])),
        "checkpoint_options": {},
    }
    if kind in ("mem", "adaptmem"):
        o["checkpoint_options"] = {"revolver_type": "Memory",
                                   "revolver_options": {"n_checkpoints": 1}}
    if kind == "single":
        o["checkpoint_options"] = {"revolver_type": "SingleLevel",
                                   "revolver_options": {"n_checkpoints": None}}
    if adaptive:
        o["error_controller"] = rng.choice([[h_211, integral], [h0_211, pc, integral],
                                            [integral], [pseudo, integral]])
        o["error_controller_options"] = {"config": ErrorControllerConfig(
            tol=rng.choice([4000.0, 500.0]), lower_bound=0.01, upper_bound=1.0,
            max_iter=2)}
        o["error_measurer"] = rng.choice([SimpleErrorMeasurer(),
                                          ImprovedErrorMeasurer(1.0, 1.0)])
    return tab, o, n


def public(o):
    """What a user can see of an object."""
    if isinstance(o, np.ndarray):
        return ["nd", list(o.shape), o.tolist()]
    if isinstance(o, dict):
        return {str(k): public(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [public(v) for v in o]
    if callable(o) and hasattr(o, "__name__"):
        return o.__name__
    if hasattr(o, "butcher_matrix"):
        res = [public(np.asarray(getattr(o, a))) for a in
               ("butcher_matrix", "butcher_weight_vector", "butcher_time_stages")]
        res += [o.p, o.is_embedded]
        if o.is_embedded:
            res += [public(np.asarray(o.butcher_adaptive_weights)), o.phat]
        return res
    if dataclasses.is_dataclass(o):
        return {f.name: public(getattr(o, f.name)) for f in dataclasses.fields(o)}
    if isinstance(o, (int, float, str, bool, type(None), np.generic)):
        return repr(o)
    return [type(o).__name__] + [[k, public(v)] for k, v in sorted(vars(o).items())
                                 if not k.startswith("_")]


_O = {}


def otok(objs):
    return _O.setdefault(json.dumps(public(objs), sort_keys=True), len(_O) + 1)


def ctypes(kind):
    return {"mem": ["pyrevolve"] * 2, "adaptmem": ["pyrevolve"] * 2,
            "single": ["pyrevolve"] * 2, "mix": ["pyrevolve", "all"]}.get(
                kind, ["all"] * 2)


def build(c, objs, ctype):
    o = dict(objs)
    tab = o.pop("tableau")
    r = c.rig(tableau=tab, checkpointing=ctype, integrator_options=o)
    return r


def do(r, op, dirs, seeds):
    """Result and whether the vectors handed in were modified."""
    comp = r.comp
    inputs, _, _ = comp.get_nonlinear_vectors()
    before = inputs.asarray(copy=True)
    args = 0
    if op == "R":
        out = r.c_run()
    else:
        d_in, d_out, _ = comp.get_linear_vectors()
        if op == "F":
            seed = r.split_in(*dirs)
            out = r.c_fwd(*dirs)
            src = d_in
        else:
            seed = r.split_out(*seeds)
            out = r.c_rev(*seeds)
            src = d_out
        args |= any(not np.array_equal(src[k], v) for k, v in seed.items())
    args |= not np.array_equal(before, inputs.asarray())
    return tok(out), int(args)


@functools.lru_cache(maxsize=None)
def setting(seed, kind, pool):
    rng = random.Random(f"{seed}/{kind}/{pool}")
    tab, objs, n = make_objs(kind, rng)
    confs, pts, dirs, seeds, fresh = [], [], [], [], []
    for i in range(2):
        c = Conf(rng, n_steps=n, tab=tab)
        c.n_callbacks = rng.choice([0, 1])
        base = c.point(rng)
        var = (variant(rng, base[0]), base[1], base[2])
        confs.append(c)
        pts.append([base, var])
        dirs.append(c.direction(rng, "full"))
        seeds.append(c.seed(rng, "full"))
        row = []
        for p in pts[-1]:
            e = {}
            for op in "RFB":
                r = build(c, copy.deepcopy(objs), ctypes(kind)[i])
                r.c_set(*p)
                if op != "R":
                    do(r, "R", dirs[i], seeds[i])
                e[op] = do(r, op, dirs[i], seeds[i])[0]
            row.append(e)
        fresh.append(row)
    return confs, pts, dirs, seeds, fresh


def run(sc):
    confs, pts, dirs, seeds, fresh = setting(sc["seed"], sc["kind"], sc["pool"])
    _, objs, n = make_objs(sc["kind"], random.Random(
        f"{sc['seed']}/{sc['kind']}/{sc['pool']}"))
    rng = random.Random(json.dumps(sc))
    t0 = otok(objs)
    rigs, cur, ev = {}, [0, 0], []
    for i, op in sc["h"]:
        i -= 1
        if op == "X":
            cur[i] ^= 1
            rigs[i].c_set(*pts[i][cur[i]])
            ev.append({"op": "X", "i": i + 1})
            continue
        e = {"op": op.upper(), "i": i + 1, "raised": 0, "args": 0, "got": 0}
        try:
            if op == "S":
                if i in rigs:
                    from rig import quiet
                    with quiet():
                        rigs[i].prob.setup()
                        rigs[i].prob.final_setup()
                else:
                    rigs[i] = build(confs[i], objs, ctypes(sc["kind"])[i])
                rigs[i].c_set(*pts[i][cur[i]])
            else:
                if op in "rf":
                    rigs[i].rec.fail_at = (rng.choice(["eval", "eval", "lin"]),
                                           rng.randint(1, 3 * n))
                e["got"], e["args"] = do(rigs[i], op.upper(), dirs[i], seeds[i])
        except Failure:
            e["raised"] = 1
        except Exception as ex:  # noqa
            if type(ex).__name__ == "Hang":
                raise
            e["raised"] = 1 if "Failure" in repr(ex) else 2
            e["exc"] = repr(ex)[:200]
        if i in rigs:
            rigs[i].rec.fail_at = None
        e["objs"] = otok(objs)
        ev.append(e)
        if e["op"] == "S" and e["raised"]:
            break
    return [{"objs": t0, "fresh": fresh, "ev": ev}]
