"""C09: fallback controllers take over exactly when the outer one fails."""
import random

import ctl


def scenarios(tier, seed):
    n = 2500 if tier == "quick" else 40000
    return [{"n": 1 + (i % 7 > 0) + (i % 7 > 3) + (i % 7 > 5), "s": f"{seed}/{i}"}
            for i in range(n)]


def run(sc):
    """A history of trials like in an integration: rejected ones are repeated with
    another step size, the histories follow the accepted ones."""
    rng = random.Random(sc["s"])
    p = rng.randint(1, 5)
    cf, sf = ctl.rand_cf(rng)
    names, gs = ctl.rand_chain(rng, sc["n"], p)
    if rng.random() < 0.5:
        names = [rng.choice(["integral", "pseudo", "h_211", "h0_330", "direct"])
                 for _ in names]
        gs = [ctl.free(rng, nm) for nm in names]
    cfg = ctl.config(cf, sf)
    c = None
    for nm, g in zip(names, gs):
        c = ctl.make(nm, g, p, cfg, c)
    ev = []
    lh = 4 * rng.randint(-4, 3)
    h = {"e0": cf["lt"], "e1": cf["lt"], "s0": ctl.BIG, "s1": ctl.BIG}
    bias = rng.random()
    for _ in range(rng.randint(4, 20)):
        bad = rng.random() < bias
        le = cf["lt"] + 4 * (rng.randint(1, 6) if bad else rng.randint(-6, 0))
        if rng.random() < 0.03:
            le = -ctl.BIG
        r = dict(h, le=le, lh=lh)
        e = ctl.call(c, r, ctl.rand_remaining(rng, ctl.val(lh)), p)
        ev.append(e)
        if e["err"]:
            if not hasattr(c, "reset"):
                break
            c.reset()
            ev.append({"op": "reset"})
            continue
        if e["acc"]:
            h = {"e0": min(le, cf["lt"]) if le != -ctl.BIG else cf["lt"] - 24,
                 "e1": h["e0"], "s0": lh, "s1": h["s0"]}
            lh = 4 * rng.randint(-6, 3)
        else:
            lh = max(-40, lh - 4 * rng.randint(0, 2))
        if hasattr(c, "reset") and rng.random() < 0.03:
            c.reset()
            ev.append({"op": "reset"})
    return [ctl.trace(names, gs, p, cf, sf, ev)]
