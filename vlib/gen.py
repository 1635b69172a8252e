"""Hypothesis strategies producing plain JSON problem specs (see model.py)."""
from hypothesis import strategies as st

from . import model as M

INF = 1e20

# exact in binary floating point, so the oracle can compare with ==
ints = st.integers(-6, 6)
dyadic = st.one_of(st.integers(-6, 6), st.integers(-24, 24).map(lambda k: k / 4))
nz_ints = st.integers(-6, 6).filter(bool)
nz_dyadic = dyadic.filter(bool)
wide = st.one_of(dyadic, st.integers(-1000, 1000), st.integers(-10 ** 6, 10 ** 6).map(lambda k: k / 1024))

POOL = ["x", "y", "z", "x0", "x1", "x2", "a", "b1", "w_1", "c0", "q0", "e", "Inf", "x10", "X", "_u", "s", "t3"]


def names(n, pool=None):
    pool = pool or POOL
    return st.one_of(
        st.just(["x{}".format(i) for i in range(n)]),
        st.lists(st.sampled_from(pool), min_size=n, max_size=n, unique=True),
    )


def binary():
    return st.just({"t": "B", "l": 0, "u": 1})


@st.composite
def integer(draw, max_range=6, lo=-4, hi=4):
    l = draw(st.integers(lo, hi))
    r = draw(st.integers(0, max_range))
    return {"t": "I", "l": l, "u": l + r}


@st.composite
def continuous(draw, allow_inf=True):
    l = draw(st.integers(-16, 12)) / 4
    r = draw(st.integers(0, 24)) / 4
    v = {"t": "C", "l": l, "u": l + r}
    if allow_inf:
        k = draw(st.integers(0, 5))
        if k in (0, 2):
            v["u"] = INF
        if k in (1, 2):
            v["l"] = -INF
    return v


@st.composite
def variables(draw, types="BIC", min_n=1, max_n=5, max_range=6, pool=None, allow_inf=True, max_points=None):
    n = draw(st.integers(min_n, max_n))
    nm = draw(names(n, pool))
    out = []
    pts = 1
    for k in range(n):
        t = draw(st.sampled_from(types))
        if t == "B":
            v = dict(draw(binary()))
        elif t == "I":
            mr = max_range
            if max_points is not None:
                mr = max(0, min(max_range, max_points // (pts * 2 ** (n - k - 1)) - 1))
            v = dict(draw(integer(max_range=mr)))
        else:
            v = dict(draw(continuous(allow_inf)))
        if t != "C":
            pts *= int(v["u"] - v["l"]) + 1
        v["n"] = nm[k]
        out.append(v)
    return out


@st.composite
def linear(draw, n, value=dyadic, min_size=0, repeat=False):
    if n == 0:
        return []
    idx = draw(st.lists(st.integers(0, n - 1), min_size=min(min_size, n), max_size=n, unique=not repeat))
    return [[i, draw(value)] for i in idx]


@st.composite
def quadratic(draw, n, value=dyadic, min_size=0, max_size=6, diag=True, repeat=False):
    if n == 0 or (n == 1 and not diag):
        return []
    ij = st.tuples(st.integers(0, n - 1), st.integers(0, n - 1))
    if not diag:
        ij = ij.filter(lambda p: p[0] != p[1])
    pairs = draw(st.lists(ij, min_size=min_size, max_size=max_size, unique=not repeat))
    return [[i, j, draw(value)] for i, j in pairs]


@st.composite
def rhs_near(draw, lin, quad, vs, value):
    """a right-hand side that is often attained: the value of the left-hand side at some point"""
    if draw(st.integers(0, 3)) == 0:
        return draw(value)
    x = []
    for v in vs:
        lo, hi = max(v["l"], -8), min(v["u"], 8)
        lo, hi = min(lo, hi), max(lo, hi)
        x.append(draw(st.integers(int(lo), int(max(lo, hi)))))
    r = M.ev_lin(lin, x) + M.ev_quad(quad, x)
    return r + draw(st.sampled_from([0, 0, 0, 1, -1]))


@st.composite
def lin_constraint(draw, vs, name, value=dyadic, senses=("<=", ">=", "=="), near=True, min_size=1):
    n = len(vs)
    lin = draw(linear(n, value, min_size=min_size))
    s = draw(st.sampled_from(list(senses)))
    r = draw(rhs_near(lin, [], vs, value)) if near else draw(value)
    return {"n": name, "lin": lin, "s": s, "r": r}


@st.composite
def quad_constraint(draw, vs, name, value=dyadic, senses=("<=", ">=", "=="), near=True):
    n = len(vs)
    lin = draw(linear(n, value))
    quad = draw(quadratic(n, value, min_size=1, max_size=4))
    s = draw(st.sampled_from(list(senses)))
    r = draw(rhs_near(lin, quad, vs, value)) if near else draw(value)
    return {"n": name, "lin": lin, "quad": quad, "s": s, "r": r}


@st.composite
def problem(draw, types="BIC", min_n=1, max_n=5, max_range=6, value=dyadic, cvalue=None, max_lcs=3, max_qcs=0,
            senses=("<=", ">=", "=="), allow_inf=True, max_points=None, max_quad=6, pool=None, name=True,
            near=True, obj_quad=True, min_lcs=0):
    vs = draw(variables(types, min_n, max_n, max_range, pool, allow_inf, max_points))
    n = len(vs)
    cvalue = cvalue if cvalue is not None else value
    spec = {
        "name": draw(st.sampled_from(["", "prob", "my_problem"])) if name else "",
        "vars": vs,
        "sense": draw(st.sampled_from(["min", "max"])),
        "const": draw(value),
        "lin": draw(linear(n, value)),
        "quad": draw(quadratic(n, value, max_size=max_quad)) if obj_quad else [],
    }
    nl = draw(st.integers(min_lcs, max_lcs))
    nq = draw(st.integers(0, max_qcs))
    lnames = draw(st.sampled_from([["c0", "c1", "c2", "c3"], ["k", "x", "c1", "lin"], ["c3", "c2", "c1", "c0"]]))
    qnames = draw(st.sampled_from([["q0", "q1", "q2", "q3"], ["k", "q2", "c0", "quad"]]))
    spec["lcs"] = [draw(lin_constraint(vs, lnames[k], cvalue, senses, near)) for k in range(nl)]
    spec["qcs"] = [draw(quad_constraint(vs, qnames[k], cvalue, senses, near)) for k in range(nq)]
    return spec


def widen(draw, p, chance=3):
    """bounds of integer variables need not be integers: widen them by less than one (the integer points stay)"""
    for v in p["vars"]:
        if v["t"] == "I" and draw(st.integers(0, chance)) == 0:
            v["l"] -= draw(st.integers(0, 3)) / 4
            v["u"] += draw(st.integers(0, 3)) / 4
    return p


def fix_binaries(draw, p, chance=9):
    """a binary variable may be fixed through its bounds"""
    for v in p["vars"]:
        if v["t"] == "B" and draw(st.integers(0, chance)) == 0:
            v["l"] = v["u"] = draw(st.integers(0, 1))
    return p


def blank_rows(draw, p, chance=11):
    """constraints may come out without variables (0 <= r), e.g. after terms cancelled"""
    for c in p["lcs"] + p["qcs"]:
        if draw(st.integers(0, chance)) == 0:
            c["lin"] = [[0, 0]] if draw(st.booleans()) else []
            if "quad" in c:
                c["quad"] = []
            c["r"] = draw(st.sampled_from([0, 0, 1, -1, 2]))
    return p


lfmts = st.sampled_from(M.LIN_FMTS)
qfmts = st.sampled_from(M.QUAD_FMTS)


# -------------------------------------------------------------------------------------------------- larger programs
# Drawing every number of a large program is slow; these cases draw the shape and a seed, and expand() fills in the rest.
KINDS = ["int", "dyadic", "rough", "tiny", "huge"]


def number(rnd, kind, nonzero=True):
    """a coefficient: small integer, quarter, arbitrary float, mixed with tiny ones, mixed with large ones"""
    while True:
        if kind == "int":
            v = rnd.randint(-6, 6)
        elif kind == "dyadic":
            v = rnd.randint(-24, 24) / 4
        elif kind == "rough":
            v = rnd.choice([rnd.uniform(-9, 9), rnd.randint(-20, 20) / 3, rnd.randint(-99, 99) / 10])
        elif kind == "tiny":
            v = rnd.choice([rnd.randint(-6, 6), rnd.randint(-9, 9) * 1e-4, rnd.randint(-9, 9) * 1e-6, rnd.randint(-9, 9) * 1e-7])
        else:
            v = rnd.choice([rnd.randint(-6, 6), rnd.randint(-99, 99) * 1000, rnd.randint(-10 ** 7, 10 ** 7), rnd.randint(-999, 999) / 8])
        if v or not nonzero:
            return v


@st.composite
def large(draw, types="BIC", min_n=7, max_n=14, max_lcs=12, max_qcs=0, kinds=KINDS, ckinds=None, **kw):
    return dict({
        "n": draw(st.integers(min_n, max_n)), "types": types, "nl": draw(st.integers(0, max_lcs)), "nq": draw(st.integers(0, max_qcs)),
        "kind": draw(st.sampled_from(kinds)), "ckind": draw(st.sampled_from(ckinds)) if ckinds else None,
        "names": draw(st.integers(0, 3)), "sense": draw(st.sampled_from(["min", "max"])), "seed": draw(st.integers(0, 2 ** 31)),
    }, **kw)


def expand(b):
    """the program spec of a large() case; the numbers of variables and constraints can be shrunk"""
    import random

    rnd = random.Random(b["seed"])
    n = b["n"]
    nm = [["x{}".format(i) for i in range(n)], ["v{}".format(n - i) for i in range(n)],
          ["x[{}]".format(i) if b.get("brackets") else "y_{}".format(i * 7 % 101) for i in range(n)],
          rnd.sample(["n{}".format(i) for i in range(3 * n)], n)][b["names"]]
    vs = []
    for i in range(n):
        t = rnd.choice(b["types"])
        if t == "B":
            v = {"t": "B", "l": 0, "u": 1}
        elif t == "I":
            l = rnd.randint(-5, 4)
            v = {"t": "I", "l": l, "u": l + rnd.choice([0, 1, 2, 3, 6, b.get("range", 9)])}
        else:
            l = rnd.randint(-16, 12) / 4
            v = {"t": "C", "l": l, "u": l + rnd.randint(0, 24) / 4}
            if b.get("inf"):
                k = rnd.randint(0, 5)
                if k in (0, 2):
                    v["u"] = INF
                if k in (1, 2):
                    v["l"] = -INF
        vs.append(dict(v, n=nm[i]))
    kind, ck = b["kind"], b["ckind"] or b["kind"]

    def lin(kind, full=False):
        m = n if full else rnd.choice([1, 2, 3, n // 2, n])
        return [[i, number(rnd, kind)] for i in rnd.sample(range(n), max(1, min(m, n)))]

    def quad(kind, m):
        pairs = {}
        for _ in range(m):
            i, j = rnd.randrange(n), rnd.randrange(n)
            if (i, j) not in pairs and (j, i) not in pairs:
                pairs[i, j] = number(rnd, kind)
        return [[i, j, v] for (i, j), v in pairs.items()]

    def aim(l, q):
        x = [rnd.randint(int(max(v["l"], -5)), int(min(v["u"], 5)) if min(v["u"], 5) >= max(v["l"], -5) else int(max(v["l"], -5))) for v in vs]
        return M.ev_lin(l, x) + M.ev_quad(q, x) + rnd.choice([0, 0, 0, 1, -1, 5])

    p = {"name": rnd.choice(["", "large"]), "vars": vs, "sense": b["sense"], "const": number(rnd, kind, False),
         "lin": lin(kind, rnd.random() < 0.5), "quad": quad(kind, rnd.choice([0, n, 2 * n, n * n])) if not b.get("linear") else [], "lcs": [], "qcs": []}
    senses = b.get("senses", ["<=", ">=", "=="])
    for k in range(b["nl"]):
        l = lin(ck)
        p["lcs"].append({"n": "c{}".format(k), "lin": l, "s": rnd.choice(senses), "r": aim(l, [])})
    for k in range(b["nq"]):
        l, q = lin(ck), quad(ck, rnd.choice([1, 2, n])) or [[0, 0, 1]]
        p["qcs"].append({"n": "q{}".format(k), "lin": l, "quad": q, "s": rnd.choice(senses), "r": aim(l, q)})
    return p


def some_points(p, seed, count=12, outside=False):
    """points of the domain (and beside it)"""
    import random

    rnd = random.Random(seed)
    out = []
    for _ in range(count):
        x = []
        for v in p["vars"]:
            lo, hi = max(v["l"], -6), min(v["u"], 6)
            if lo > hi:
                lo = hi = (v["u"] if v["u"] < -6 else v["l"])
            if outside and rnd.random() < 0.05:
                x.append(rnd.choice([v["l"] - 1, v["u"] + 1]) if abs(v["l"]) < 1e19 and abs(v["u"]) < 1e19 else 0)
            elif v["t"] == "C":
                x.append(rnd.choice([lo, hi, lo + (hi - lo) * rnd.randint(0, 8) / 8]))
            else:
                from math import ceil, floor

                x.append(rnd.randint(ceil(lo), floor(hi)) if ceil(lo) <= floor(hi) else lo)
        out.append(x)
    return out
