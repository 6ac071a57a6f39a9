"""Histories generated by TLC from the specification, for replay on the code."""
from __future__ import annotations

import json
import os
import random

import tlc


def histories(cfg, seed, simulate=None, depth=None, module="LifeOps"):
    extra = []
    if simulate:
        extra = ["-simulate", f"num={simulate}", "-depth", str(depth + 1)]
    res = tlc.run(module, cfg, workers=1, seed=seed, extra=extra)
    hs = {json.dumps(ln[1]) for ln in res["lines"] if ln[0] == "H"}
    return [json.loads(h) for h in sorted(hs)]


def life(tier, seed, work):
    """(exhaustive short histories with all crash points, all histories of depth 4 or
    5, random long ones)"""
    rng = random.Random(seed)
    h3 = histories("LifeOps.cfg", seed)
    h4 = histories("LifeOps4.cfg" if tier == "quick" else "LifeOps5.cfg", seed)
    sim = histories("LifeOpsSim.cfg", seed, 200 if tier == "quick" else 4000, 12)
    rng.shuffle(sim)
    sim = sim[: 300 if tier == "quick" else 6000]
    fn = os.path.join(work, "hist.json")
    with open(fn, "w") as f:
        json.dump({"h3": h3, "h4": h4, "sim": sim}, f)
    return {"HIST_FILE": fn}


def iso(tier, seed, work):
    gen = histories("IsolateGen.cfg", seed, module="Isolate")
    sim = histories("IsolateSim.cfg", seed, 400 if tier == "quick" else 6000, 14,
                    module="Isolate")
    sim = [h for h in sim if len({i for i, _ in h}) > 1]
    random.Random(seed).shuffle(sim)
    fn = os.path.join(work, "hist.json")
    with open(fn, "w") as f:
        json.dump({"gen": gen, "sim": sim[: 250 if tier == "quick" else 5000]}, f)
    return {"HIST_FILE": fn}


def tags(tier, seed, work):
    def gen(cfg):
        return [json.loads(h) if isinstance(h, str) else h
                for h in histories(cfg, seed, module="TagCases")]
    c1 = gen("TagCases.cfg")
    c2 = gen("TagCases2.cfg")
    rng = random.Random(seed)
    rng.shuffle(c2)
    c3 = []
    if tier == "quick":
        c2 = c2[:1800]
    else:
        c3 = gen("TagCases3.cfg")
        rng.shuffle(c3)
        c3 = c3[:15000]
    fn = os.path.join(work, "hist.json")
    with open(fn, "w") as f:
        json.dump({"c1": c1, "c2": c2, "c3": c3}, f)
    return {"HIST_FILE": fn}


def states(tier, seed, work):
    gen = histories("StateOpsGen.cfg", seed, module="StateOps")
    sim = histories("StateOpsSim.cfg", seed, 60 if tier == "quick" else 800, 12,
                    module="StateOps")
    random.Random(seed).shuffle(sim)
    fn = os.path.join(work, "hist.json")
    with open(fn, "w") as f:
        json.dump({"gen": gen, "sim": sim[: 1500 if tier == "quick" else 20000]}, f)
    return {"HIST_FILE": fn}


PRE = {"life": life, "iso": iso, "tags": tags, "states": states}
