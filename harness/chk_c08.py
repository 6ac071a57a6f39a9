"""C08: suggested step sizes follow the documented law within its bounds."""
import random

import ctl


def scenarios(tier, seed):
    res = []
    reps = 6 if tier == "quick" else 120
    for name in ctl.NAMES + ctl.GENERAL + ["direct"] * 4:
        for p in range(1, 6):
            for k in range(reps):
                res.append({"name": name, "p": p, "s": f"{seed}/{len(res)}"})
    return res


def run(sc):
    rng = random.Random(sc["s"])
    p, name = sc["p"], sc["name"]
    g = ctl.free(rng, name)
    cf, sf = ctl.rand_cf(rng)
    # bare, or as the fallback of a chain that is put in charge first
    c = ctl.make(name, g, p, ctl.config(cf, sf), None)
    ev = []
    for _ in range(24):
        r = ctl.rand_r(rng, cf)
        ev.append(ctl.call(c, r, ctl.rand_remaining(rng, ctl.val(r["lh"])), p))
    out = [ctl.trace([name], [g], p, cf, sf, ev)]
    # the same law when used as the fallback: the first one never yields a smaller step
    names, gs = ["direct", name], [[0, 0, 0, 0, 0], g]
    b = ctl.make("direct", gs[0], p, ctl.config(cf, sf), None)
    c = ctl.make(name, g, p, None, b)
    ev = []
    for _ in range(12):
        r = ctl.rand_r(rng, cf)
        ev.append(ctl.call(c, r, ctl.rand_remaining(rng, ctl.val(r["lh"])), p))
    out.append(ctl.trace(names, gs, p, cf, sf, ev))
    return out
