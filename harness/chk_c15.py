"""C15: tableaux are classified and checked correctly and reach their order."""
import itertools
import random
import re
import warnings
from fractions import Fraction

import numpy as np

import rkopenmdao.butcher_tableaux as shipped
from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from scen import Conf
from zp import Recorder

UNIT = 1024
B, NL, FL = 4096, 8, 5
TINY = [1e-6, 1e-12, 1e-14, 1e-300, 5e-324]


def scenarios(tier, seed):
    k = 1 if tier == "quick" else 12
    res = [{"k": "order", "name": n} for n in shipped.__all__]
    top = 3 if tier == "quick" else 4
    rng = random.Random(seed)
    shapes = list(itertools.product(range(1, top + 1), range(1, top + 1),
                                    range(1, top + 1), [-1, *range(1, top + 1)],
                                    [-1, *range(1, top + 1)]))
    good = [s for s in shapes if s[0] == s[1] == s[2]]
    rest = [s for s in shapes if s not in good]
    rng.shuffle(rest)
    for s in good + rest[: 350 * k]:
        res.append({"k": "shape", "d": list(s)})
    for i in range(400 * k):
        res.append({"k": "make", "s": f"{seed}/{i}"})
    for i in range(60 * k):
        res.append({"k": "refuse", "s": f"{seed}/r{i}"})
    for n in shipped.__all__:
        res.append({"k": "shipped", "name": n})
    for i in range(80 * k):
        res.append({"k": "split", "s": f"{seed}/s{i}"})
    return res


def run(sc):
    return [{"ev": [globals()["_" + sc["k"]](sc)]}]


# ---------------------------------------------------------------------------
def _shape(sc):
    rows, cols, nb, nc, nh = sc["d"]
    a = np.zeros((rows, cols))
    kw = dict(butcher_matrix=a, butcher_weight_vector=np.full(nb, 1.0 / nb),
              butcher_time_stages=None if nc < 0 else np.zeros(nc), p=1)
    built = 1
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if nh < 0:
                ButcherTableau(**kw)
            else:
                EmbeddedButcherTableau(**kw, phat=1,
                                       butcher_adaptive_weights=np.full(nh, 1.0 / nh))
        except Exception:
            built = 0
    return {"op": "shape", "rows": rows, "cols": cols, "nb": nb, "nc": nc, "nh": nh,
            "built": built}


def ints(v):
    r = np.rint(np.asarray(v, dtype=float) * UNIT)
    return [int(x) for x in r] if r.ndim == 1 else [[int(x) for x in y] for y in r]


def random_tab(rng, maybe_implicit=True):
    """Entries are multiples of 1/1024, apart from tiny ones above the diagonal."""
    s = rng.choice([1, 2, 2, 3, 3, 4, 5])
    kind = rng.choice(["explicit", "dirk", "esdirk", "lastdiag", "full", "upper1",
                       "tiny", "tinydiag"] if maybe_implicit else
                      ["explicit", "dirk", "esdirk", "lastdiag", "tinydiag"])

    def val():
        return rng.randrange(-2 * UNIT, 2 * UNIT + 1) / UNIT or 0.5

    A = np.zeros((s, s))
    for i in range(s):
        for j in range(i):
            A[i, j] = val() if rng.random() < 0.8 else 0.0
        if kind in ("dirk", "full") or kind == "esdirk" and i > 0:
            A[i, i] = val()
    if kind == "lastdiag":
        A[s - 1, s - 1] = val()
    if kind == "full":
        for i in range(s):
            for j in range(i + 1, s):
                A[i, j] = val() if rng.random() < 0.5 else 0.0
    if kind in ("upper1", "tiny") and s > 1:
        i, j = sorted(rng.sample(range(s), 2))
        A[i, j] = val() if kind == "upper1" else rng.choice(TINY) * rng.choice([1, -1])
        if rng.random() < 0.5:
            A[0, 0] = val()
    if kind == "tinydiag":
        i = rng.randrange(s)
        A[i, i] = rng.choice(TINY) * rng.choice([1, -1])
    b = np.array([val() for _ in range(s)])
    if rng.random() < 0.6:
        b[0] += 1 - b.sum()
    c = np.rint(A.sum(1) * UNIT) / UNIT
    if rng.random() < 0.4:
        c[rng.randrange(s)] += rng.choice([-1, 1, 5, -700]) / UNIT
    return A, b, c


def describe(A, b, c):
    return {"A": ints(A), "b": ints(b), "c": [] if c is None else ints(c),
            "nz": [[int(x != 0.0) for x in row] for row in A]}


def build(A, b, c, p, bh=None, phat=None):
    kw = dict(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=c, p=p)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        t = (ButcherTableau(**kw) if bh is None else
             EmbeddedButcherTableau(**kw, butcher_adaptive_weights=bh, phat=phat))
    return t, len(w)


def classes(t):
    return [int(bool(t.is_explicit())), int(bool(t.is_diagonally_implicit())),
            int(bool(t.is_implicit()))]


def _make(sc):
    rng = random.Random(sc["s"])
    A, b, c = random_tab(rng)
    if rng.random() < 0.15:
        c = None
    keep = [x if x is None else x.copy() for x in (A, b, c)]
    p = rng.randint(1, 6)
    bh = None
    if rng.random() < 0.3:
        bh = np.array([rng.randrange(-9, 9) / 8 for _ in b])
        bh[0] += 1 - bh.sum()
    e = {"op": "make", **describe(A, b, c), "porig": p}
    try:
        t, n = build(A, b, c, p, bh, rng.randint(1, 6))
    except Exception:
        return {**e, "built": 0, "warned": 0, "stages": 0, "len": 0, "cls": [], "cc": [],
                "p": 0, "same": 0}
    cls = classes(t)
    str(t)
    same = all(x is None or np.array_equal(x, y) for x, y in zip((A, b, c), keep)) and \
        np.array_equal(t.butcher_matrix, keep[0]) and \
        np.array_equal(t.butcher_weight_vector, keep[1]) and cls == classes(t)
    return {**e, "built": 1, "warned": n, "stages": int(t.number_of_stages()),
            "len": len(t), "cls": cls, "cc": ints(t.butcher_time_stages), "p": int(t.p),
            "same": int(same)}


def _refuse(sc):
    rng = random.Random(sc["s"])
    A, b, c = random_tab(rng)
    np.fill_diagonal(A, np.rint(np.diag(A) * UNIT) / UNIT)  # tiny ones above only
    s = len(b)
    tab = {"A": A.tolist(), "b": b.tolist(), "c": c.tolist(), "s": s, "kind": "", "p": 2,
           "phat": 1, "bh": [1.0] + [0.0] * (s - 1) if rng.random() < 0.4 else None}
    conf = Conf(rng, tab=tab, max_n=2)
    e = {"op": "refuse", **describe(A, b, c)}
    rec = Recorder()
    pt = conf.point(rng)
    refused = 0
    try:
        r = conf.rig(n_steps=1, h=0.25, rec=rec)
        n0 = len(rec.evals)
        r.c_set(*pt)
        r.c_run()
    except Exception:
        refused = 1
        n0 = 0
    return {**e, "refused": refused, "evals": len(rec.evals) - n0}


def part(t):
    return {"A": ints(t.butcher_matrix), "b": ints(t.butcher_weight_vector),
            "c": ints(t.butcher_time_stages), "p": int(t.p), "emb": int(t.is_embedded)}


def _split(sc):
    rng = random.Random(sc["s"])
    A, b, c = random_tab(rng)
    s = len(b)
    bh = np.array([rng.randrange(-2048, 2048) / 1024 for _ in range(s)])
    p, phat = rng.sample(range(1, 7), 2)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if rng.random() < 0.4:
            base = ButcherTableau(butcher_matrix=A, butcher_weight_vector=b,
                                  butcher_time_stages=c, p=p)
            t = EmbeddedButcherTableau.from_butchertableau(base, bh, phat)
        else:
            t = build(A, b, c, p, bh, phat)[0]
        if rng.random() < 0.3:
            p, phat = rng.sample(range(1, 7), 2)
            t.p, t.phat = p, phat
        return {"op": "split", **describe(A, b, c), "bh": ints(bh), "porig": p,
                "phat": phat, **_parts(t)}


def _parts(t):
    m, h = t.main_method, t.embedded_method
    return {"main": part(m), "emb": part(h), "isemb": int(t.is_embedded),
            "own": [ints(t.butcher_weight_vector), ints(t.butcher_adaptive_weights)],
            "ps": [int(t.p), int(t.phat), int(t.min_p_order())]}


def _shipped(sc):
    t = getattr(shipped, sc["name"])
    c = t.butcher_time_stages
    d = describe(t.butcher_matrix, t.butcher_weight_vector, c)
    if t.is_embedded:
        return {"op": "split", **d, "bh": ints(t.butcher_adaptive_weights),
                "porig": int(t.p), "phat": int(t.phat), **_parts(t)}
    # the numbers are rounded here, so only the classification is of interest
    d["b"], d["A"] = [UNIT] + [0] * (len(c) - 1), [[0] * len(c) for _ in c]
    d["c"] = [0] * len(c)
    return {"op": "make", **d, "built": 1, "warned": 0, "stages": int(t.number_of_stages()),
            "len": len(t), "cls": classes(t), "cc": d["c"], "p": int(t.p),
            "porig": int(t.p), "same": 1}


# ---------------------------------------------------------------------------
def fixed(v):
    n = round(Fraction(float(v)) * B**FL)
    d = []
    for _ in range(NL - 1):
        d.append(int(n % B))
        n //= B
    return d + [int(n)]


WORDS = {"second": 2, "third": 3, "fourth": 4, "fifth": 5, "two": 2, "three": 3,
         "four": 4, "five": 5, "six": 6}


def _order(sc):
    n = sc["name"]
    t = getattr(shipped, n)
    st = re.search(r"_(two|three|four|five|six)_stage", n)
    od = re.search(r"(second|third|fourth|fifth)_order_", n)
    wk = re.search(r"(second|third)_weak_stage_order", n)
    kind = re.search(r"esdirk|sdirk", n)
    kind = kind.group(0) if kind else ("explicit" if re.search(
        r"explicit_euler|heun|runge_kutta_f", n) else "")
    return {"op": "order", "FA": [[fixed(x) for x in r] for r in t.butcher_matrix],
            "Fb": [fixed(x) for x in t.butcher_weight_vector],
            "Fc": [fixed(x) for x in t.butcher_time_stages],
            "Fh": [fixed(x) for x in t.butcher_adaptive_weights] if t.is_embedded else [],
            "p": int(t.p), "phat": int(t.phat) if t.is_embedded else 0,
            "nstages": WORDS[st.group(1)] if st else 0,
            "norder": WORDS[od.group(1)] if od else 0,
            "weak": WORDS[wk.group(1)] if wk else 1, "kind": kind,
            "nemb": int(n.startswith("embedded"))}
