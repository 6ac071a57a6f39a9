"""C12: result files contain exactly the trajectory and are read back unchanged."""
import os
import random

import h5py
import numpy as np

from adapt import Adapt
from rig import random_tableau
from scen import Conf
from zp import proj, projv

from rkopenmdao.errors import ErrorControllerError
from rkopenmdao.file_writer import (OpenMDAOHDF5Callback, read_hdf5_file,
                                    read_last_local_error)

BIG = 2.0**30


def scenarios(tier, seed):
    k = 1 if tier == "quick" else 10
    return [{"s": f"{seed}/{i}", "ad": int(i % 3 == 2)} for i in range(360 * k)]


def run(sc):
    rng = random.Random(sc["s"])
    emb = sc["ad"] or rng.random() < 0.4
    tab = random_tableau(rng, s=rng.choice([1, 2, 2, 3]), embedded=bool(emb))
    c = Conf(rng, tab=tab, max_n=9)
    c.n_callbacks = 1
    period = rng.choice([1, 1, 2, 2, 3, 4, 7])
    fn = os.path.join(os.getcwd(), "result.h5")
    if os.path.exists(fn):
        os.remove(fn)
    if rng.random() < 0.3:
        with h5py.File(fn, "w") as f:  # an older file of that name
            f.create_group("0")
            f.create_group("99").create_dataset("time", data=[1.0])
    ev = []
    if sc["ad"]:
        _adaptive(rng, c, fn, period, sc, ev)
    else:
        _fixed(rng, c, fn, period, ev)
    d = c.json()
    d.update(ev=ev, period=period, big=proj(BIG),
             q=[{"name": q["name"], "shape": list(q["shape"]), "lo": q["start"] + 1,
                 "hi": q["end"]} for q in c.lay["quantities"]])
    return [d]


def _fixed(rng, c, fn, period, ev):
    def build(n):
        ck = rng.choice(["all", "pyrevolve", "pyrevolve", "none"])
        kw = dict(checkpointing=ck)
        if ck == "pyrevolve" and rng.random() < 0.7:
            kw["checkpoint_options"] = {"revolver_options": {
                "n_checkpoints": rng.randint(1, max(1, n - 1))}}
        h = rng.choice([0.5, 0.25, 1.0])
        return n, h, ck, c.rig(n_steps=n, h=h, extra_callbacks=[
            OpenMDAOHDF5Callback(fn, period)], **kw)

    rigs = [build(rng.choice([rng.randint(1, 9), rng.randint(1, 9), rng.randint(10, 14),
                              rng.choice([20, 21, 101]) if len(c.lay["quantities"]) == 1 else 10]))
            for _ in range(rng.choice([1, 2]))]
    for _ in range(rng.choice([1, 2, 3])):
        n, h, ck, r = rng.choice(rigs)
        pt = c.point(rng)
        r.c_set(*pt)
        ev.append({"op": "set", "x": projv(pt[0]), "u": projv(pt[1]), "t": proj(pt[2])})
        r.c_run()
        ev.append({"op": "run", "hs": [proj(h)] * n, "es": []})
        dump(fn, ev)
        if ck != "none" and rng.random() < 0.7:
            for _ in range(rng.choice([1, 1, 2])):
                r.c_rev(*c.seed(rng))
            dump(fn, ev)
        if rng.random() < 0.3:
            r.c_fwd(*c.direction(rng))
            dump(fn, ev)
    read(rng, c, fn, ev)


def _adaptive(rng, c, fn, period, sc, ev):
    pt = c.point(rng)
    kw = dict(n_steps=rng.choice([rng.randint(1, 8), rng.randint(1, 8),
                                  rng.randint(10, 13)]))
    timed = rng.random() < 0.6
    if timed:
        kw = dict(final_time=pt[2] + rng.choice([1.0, 1.5, 2.0]))
    a = Adapt(c, rng, real=False, seed=sc["s"], bias=rng.choice([0, 30, 50]),
              extra_callbacks=[OpenMDAOHDF5Callback(fn, period)],
              checkpointing="all" if timed else rng.choice(["all", "pyrevolve"]), **kw)
    for _ in range(rng.choice([1, 2, 3])):
        if timed:  # the number of steps changes
            pt = (pt[0], pt[1], a.final_time - rng.choice([0.25, 0.5, 1.0, 1.75, 2.5]))
        else:
            pt = c.point(rng)
        a.ev.clear()
        a.set(*pt)
        ev.append({"op": "set", "x": projv(pt[0]), "u": projv(pt[1]), "t": proj(pt[2])})
        a.op("run")
        after = [e for e in a.ev if e["op"] == "after"]
        ev.append({"op": "run", "hs": [e["sh"][0] for e in after],
                   "es": [e["eh"][0] for e in after]})
        dump(fn, ev)
        if rng.random() < 0.5:
            a.op("rev", c.seed(rng))
            dump(fn, ev)
    read(rng, c, fn, ev)


def dump(fn, ev):
    g = []
    with h5py.File(fn, "r") as f:
        for key, grp in f.items():
            names = [n for n in grp.keys() if n not in ("time", "error_measure")]
            g.append({"k": int(key), "t": projv(grp["time"][...]),
                      "q": [{"name": n, "shape": list(grp[n].shape),
                             "v": projv(grp[n][...])} for n in names],
                      "e": projv(grp["error_measure"][...])
                      if "error_measure" in grp else []})
    g.sort(key=lambda d: d["k"])
    ev.append({"op": "file", "g": g})


def read(rng, c, fn, ev):
    qs = c.lay["quantities"]
    idx = rng.sample(range(len(qs)), rng.randint(1, len(qs)))
    calls = []

    def solution(t, x, t0):
        e = {"t": proj(t), "t0": proj(t0)}
        if len(idx) == 1:
            e["x"] = projv(x)
        else:
            e["xs"] = [projv(v) for v in x]
        calls.append(e)
        res = [np.full(qs[j]["shape"], BIG + 8.0 * (i + 1)) for i, j in enumerate(idx)]
        return res[0] if len(idx) == 1 else res

    time, err, res = read_hdf5_file(fn, [qs[j]["name"] for j in idx], solution)
    r = []
    for k in time:
        r.append({"k": int(k), "t": proj(time[k]),
                  "v": [projv(res[qs[j]["name"]][k]) for j in idx],
                  "e": [projv(err[qs[j]["name"]][k]) for j in idx]})
    for j in idx:
        assert set(res[qs[j]["name"]]) == set(err[qs[j]["name"]]) == set(time)
    ev.append({"op": "read", "names": [j + 1 for j in idx], "r": r, "calls": calls})
    if c.tab["bh"] is not None:
        ev.append({"op": "last", "v": proj(read_last_local_error(fn))})
