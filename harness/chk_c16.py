"""C16: error norms and measures equal their definition over all quantities."""
import random
from fractions import Fraction

import numpy as np
import openmdao.api as om

import zp
from rig import quiet
from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEResultState
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer

B, NL, FL = 4096, 8, 5
# order m/k and the largest base for n entries, so that everything fits
ORDERS = [("p", 1, 1), ("p", 2, 1), ("p", 3, 1), ("p", 4, 1), ("p", 3, 2), ("p", 1, 2),
          ("p", 5, 2), ("inf", 0, 0), ("ninf", 0, 0), ("zero", 0, 0)]
TOP = {(1, 1): 9999, (2, 1): 5000, (3, 1): 400, (4, 1): 90, (3, 2): 12, (1, 2): 900,
       (5, 2): 5, (0, 0): 10000}


def scenarios(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"s": f"{seed}/{i}", "o": i % len(ORDERS)} for i in range(1200 * k)]


def fixed(v):
    n = round(Fraction(float(v)) * B**FL)
    d = []
    for _ in range(NL - 1):
        d.append(int(n % B))
        n //= B
    return d + [int(n)]


def make_ode(rng, order, excl_prob=0.35):
    shapes = [(1,), (2,), (3,), (1, 1), (2, 2), (1, 3)]
    nq = rng.choice([1, 2, 3, 4])
    qs = [(f"q{i}", rng.choice(shapes), rng.random() < 0.8) for i in range(nq)]
    lay = zp.make_layout(qs, [], rng.random() < 0.5, rng.random() < 0.5)
    ode = zp.Ode.random(rng, lay["n"], lay["m"], lay["mask"], chain=lay["split"])
    prob = zp.build_inner(ode, lay, zp.Recorder())
    prob.setup()
    prob.final_setup()
    names = [q[0] for q in qs]
    rng.shuffle(names)
    excl = [n for n in names if rng.random() < excl_prob]
    if order[0] == "ninf" and len(excl) == nq:
        excl = []
    val = {"inf": np.inf, "ninf": -np.inf, "zero": 0.0}.get(order[0])
    if val is None:
        val = order[1] / order[2]
        if order == ("p", 2, 1) and rng.random() < 0.5:
            val = None
    kw = {} if val is None else {"norm_order": val}
    if excl or rng.random() < 0.5:
        kw["norm_exclusions"] = excl
    with quiet():
        o = OpenMDAOODE(prob, names, **kw)
    part, off = [], 0  # where each quantity is stored is decided by C13
    for q in o.time_integration_metadata.time_integration_quantity_list:
        am = q.array_metadata
        part.append([am.start_index + 1, am.end_index, int(q.name in excl)])
        off = max(off, am.end_index)
    return o, part, off


def state(v):
    return DiscretizedODEResultState(np.zeros(0), np.array(v, dtype=float), np.zeros(0))


def run(sc):
    rng = random.Random(sc["s"])
    order = ORDERS[sc["o"]]
    kind, m, k = order
    ode, part, n = make_ode(rng, order)
    ev = []
    measured = []
    count = rng.choice([2, 3])
    while len(measured) < count:
        top = rng.choice([3, TOP[m, k], TOP[m, k]])
        a = [rng.randint(-top, top) if rng.random() < 0.85 else 0 for _ in range(n)]
        if rng.random() < 0.1:
            a = [0] * n
        big = 0  # norms of multiples by 2^big are multiples, too
        if kind == "p":
            v = [float(np.sign(x)) * abs(x) ** k for x in a]
            e = rng.choice([0, 0, 0, -20, -70, -120, 70])
            big = e if abs(e) * m <= 400 * k else 0
            v = [x * 2.0 ** big for x in v]
        else:
            v = [float(x) for x in a]
            if kind == "zero":  # however small they are
                v = [x * rng.choice([1.0, 1e-12, 1e-200, 1e150]) for x in v]
        st = state(v)
        keep = st.stage_state.copy()
        r = float(ode.compute_state_norm(st)) / 2.0 ** big
        ev.append({"op": "norm", "kind": kind, "m": m, "k": k, "a": a, "part": part,
                   **res(r), "kept": int(np.array_equal(keep, st.stage_state))})
        if big == 0:
            measured.append((st, r))
    if kind != "zero" and any(not p[2] for p in part):
        v = [float(rng.randint(0, 3)) for _ in range(n)]
        lo, hi, _ = rng.choice([p for p in part if not p[2]])
        v[rng.randrange(lo - 1, hi)] = np.nan
        r = float(ode.compute_state_norm(state(v)))
        ev.append({"op": "nan", "nan": int(not np.isfinite(r))})
    (e, re), (s, rs) = measured[:2]
    ev.append({"op": "measure", "which": "simple",
               **res(SimpleErrorMeasurer().get_measure(e, s, ode)), "re": fixed(re)})
    for _ in range(2):
        eps = 2.0 ** rng.randint(-20, 1)
        num, den = rng.choice([1, 3, 100, 1000]), rng.choice([1, 2, 8, 64])
        eta = eps * num / den
        meas = ImprovedErrorMeasurer(eta=eta, eps=eps)
        if rng.random() < 0.3:
            meas, num, den = ImprovedErrorMeasurer(), 1, 1
        ev.append({"op": "measure", "which": "relative", **res(meas.get_measure(e, s, ode)),
                   "re": fixed(re), "rs": fixed(rs), "num": num, "den": den})
    return [{"ev": ev}]


def res(r):
    r = float(r)
    if not np.isfinite(r) or abs(r) >= 2.0**34:
        return {"r": [0] * NL, "nan": 1}
    return {"r": fixed(r), "nan": 0}
