"""C03: feasibility answers are exact."""
import numpy as np
from hypothesis import strategies as st

from qiskit_optimization import QiskitOptimizationError

from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C03"
RULE = (
    "A case is a program over binary, integer and continuous variables (infinite, negative, degenerate and edited "
    "bounds), up to 4 linear and 3 quadratic constraints of all senses whose right-hand sides are usually attained "
    "or missed by one, and points inside, on and outside the bounds, given as list or array, before and after "
    "constraint removals and edits. magnitude: numbers up to 2**44 or "
    "down to 2**-52 whose differences decide. Non-trivial: a point is compared with at least one constraint or violated bound."
)


@st.composite
def point(draw, vs):
    x = []
    for v in vs:
        k = draw(st.integers(0, 9))
        lo, hi = max(v["l"], -10), min(v["u"], 10)
        if lo > hi:
            lo, hi = hi, lo
        if k == 0 and v["l"] > -1e19:
            x.append(v["l"] - draw(st.sampled_from([1, 0.25])))
        elif k == 1 and v["u"] < 1e19:
            x.append(v["u"] + draw(st.sampled_from([1, 0.25])))
        elif k in (2, 3) and v["l"] > -1e19:
            x.append(v["l"])
        elif k in (4, 5) and v["u"] < 1e19:
            x.append(v["u"])
        elif v["t"] == "C":
            x.append(draw(st.integers(int(lo * 4), int(hi * 4))) / 4)
        else:
            x.append(draw(st.integers(int(lo), int(hi))))
    return x


@st.composite
def case(draw):
    p = draw(G.problem(max_n=4, max_lcs=4, max_qcs=3))
    G.blank_rows(draw, p, 15)
    xs = draw(st.lists(point(p["vars"]), min_size=1, max_size=4))
    # aim some constraints exactly at one of the points (or just beside it)
    for c in p["lcs"] + p["qcs"]:
        k = draw(st.integers(0, 3))
        if k:
            x = xs[draw(st.integers(0, len(xs) - 1))]
            c["r"] = M.ev_lin(c["lin"], x) + M.ev_quad(c.get("quad", []), x) + [0, 0.25, -0.25][k - 1]
    return {
        "p": p,
        "xs": xs,
        "arr": draw(st.booleans()),
        "remove": draw(st.sampled_from(["", "l", "q"])),
        "newb": draw(st.sampled_from([None, 0, 1, -1])),
        "lf": draw(G.lfmts),
        "qf": draw(G.qfmts),
    }


def verify(ctx, qp, p, xs, arr):
    for x in xs:
        bad_v = [v["n"] for v, a in zip(p["vars"], x) if a < v["l"] or a > v["u"]]
        bad_c = []
        for c in p["lcs"]:
            if not M.holds(M.ev_lin(c["lin"], x), c["s"], c["r"]):
                bad_c.append(("l", c["n"]))
        for c in p["qcs"]:
            if not M.holds(M.ev_lin(c["lin"], x) + M.ev_quad(c["quad"], x), c["s"], c["r"]):
                bad_c.append(("q", c["n"]))
        xx = np.array(x) if arr else list(x)
        ok, vs, cs = qp.get_feasibility_info(xx)
        want = not bad_v and not bad_c
        ctx.equal(bool(ok), want, "feasible flag", x=x, bad_v=bad_v, bad_c=bad_c)
        ctx.equal(bool(qp.is_feasible(xx)), want, "is_feasible", x=x)
        ctx.equal([v.name for v in vs], bad_v, "violated variables in program order", x=x)
        got = [("q" if hasattr(c, "quadratic") else "l", c.name) for c in cs]
        for kind in "lq":
            ctx.equal([c for c in got if c[0] == kind], [c for c in bad_c if c[0] == kind], "violated constraints in program order", x=x)
        ctx.check(all(v is qp.get_variable(v.name) for v in vs), "violated variables are the program's")
        ctx.check(
            all(c is (qp.get_quadratic_constraint if hasattr(c, "quadratic") else qp.get_linear_constraint)(c.name) for c in cs),
            "violated constraints are the program's",
        )
        ctx.nontrivial(bool(p["lcs"] or p["qcs"] or bad_v))
        ctx.label("feasible" if want else "infeasible")


def check(s, ctx):
    p = s["p"]
    qp = M.build(p, s["lf"], s["qf"])
    snap = M.snapshot(qp)
    verify(ctx, qp, p, s["xs"], s["arr"])
    ctx.equal(M.snapshot(qp), snap, "the query must not change the program")
    n = len(p["vars"])
    for bad in (s["xs"][0][:-1], s["xs"][0] + [0]):
        ctx.raises(QiskitOptimizationError, lambda: qp.get_feasibility_info(bad), "wrong length must be rejected")
        ctx.raises(QiskitOptimizationError, lambda: qp.is_feasible(bad), "wrong length must be rejected")
    if s["remove"] == "l" and p["lcs"]:
        qp.remove_linear_constraint(0)
        p = dict(p, lcs=p["lcs"][1:])
    elif s["remove"] == "q" and p["qcs"]:
        qp.remove_quadratic_constraint(p["qcs"][-1]["n"])
        p = dict(p, qcs=p["qcs"][:-1])
    if s["newb"] is not None and p["vars"][0]["t"] != "C":
        b = s["newb"]
        v = p["vars"][0]
        if b <= v["u"]:
            qp.variables[0].lowerbound = b
            p = dict(p, vars=[dict(v, l=b)] + p["vars"][1:])
    verify(ctx, qp, p, s["xs"], s["arr"])


@st.composite
def rounding_case(draw):
    n = draw(st.integers(1, 6))
    return {
        "k": draw(st.lists(st.integers(1, 99), min_size=n, max_size=n)),
        "x": draw(st.lists(st.integers(1, 9), min_size=n, max_size=n)),
        "quad": draw(st.booleans()),
        "neg": draw(st.booleans()),
        "zero": draw(st.booleans()),
        "off": draw(st.sampled_from([0, 0, 0, 1, -1])),
    }


def check_rounding(s, ctx):
    """an equality that holds in decimal arithmetic is not reported as violated because of rounding"""
    qp = M.QuadraticProgram()
    for i in range(len(s["k"])):
        qp.integer_var(0, 20, "x{}".format(i))
    sg = -1 if s["neg"] else 1
    coef = [sg * k / 10 for k in s["k"]]
    if s["zero"]:
        # the total moves to the left-hand side: the right-hand side is zero (or off by 0.1)
        total = sum(k * x * (x if s["quad"] else 1) for k, x in zip(s["k"], s["x"]))
        qp.binary_var("last")
        coef.append(-sg * total / 10)
        s["x"].append(1)
        rhs = sg * s["off"] / 10
        if s["quad"]:
            c = qp.quadratic_constraint({}, {(i, i): v for i, v in enumerate(coef)}, "==", rhs, "c")
        else:
            c = qp.linear_constraint(coef, "==", rhs, "c")
        ctx.label("rhs-zero")
    elif s["quad"]:
        exact = sum(k * x * x for k, x in zip(s["k"], s["x"]))
        rhs = sg * (exact + s["off"]) / 10
        c = qp.quadratic_constraint({}, {(i, i): v for i, v in enumerate(coef)}, "==", rhs, "c")
    else:
        exact = sum(k * x for k, x in zip(s["k"], s["x"]))
        rhs = sg * (exact + s["off"]) / 10
        c = qp.linear_constraint(coef, "==", rhs, "c")
    ok, vs, cs = qp.get_feasibility_info(s["x"])
    ctx.equal(bool(ok), s["off"] == 0, "equality up to rounding", rhs=rhs)
    ctx.equal([v.name for v in vs], [], "no variable is violated")
    ctx.equal([x.name for x in cs], [] if s["off"] == 0 else ["c"], "violated equality")
    ctx.nontrivial(float(c.evaluate(s["x"])) != rhs)
    ctx.label("rounded" if float(c.evaluate(s["x"])) != rhs else "exact")


@st.composite
def large_case(draw):
    return {"b": draw(G.large(max_n=20, max_lcs=14, max_qcs=6, inf=True, kinds=["int", "dyadic", "rough", "tiny"])),
            "seed": draw(st.integers(0, 10 ** 6)), "arr": draw(st.booleans()), "removed": draw(st.integers(0, 4))}


def check_large(s, ctx):
    """many variables and constraints; right-hand sides attained or missed by as little as 1e-6"""
    import random

    p = G.expand(s["b"])
    rnd = random.Random(s["seed"])
    xs = G.some_points(p, s["seed"], 6, outside=True)
    exact = s["b"]["kind"] in ("int", "dyadic")

    def lhs(c, x):
        return M.ev_lin(c["lin"], x) + M.ev_quad(c.get("quad", []), x)

    for c in p["lcs"] + p["qcs"]:
        c["r"] = lhs(c, rnd.choice(xs)) + rnd.choice([0, 0.25, -0.25, 1] if exact else [1e-6, -1e-6, 2e-5, -2e-5, 0.5, -0.5])
        if not exact and any(abs(lhs(c, x) - c["r"]) < 2e-7 for x in xs):
            ctx.discard()
    qp = M.build(p)
    verify(ctx, qp, p, xs, s["arr"])
    for _ in range(s["removed"]):
        if p["lcs"] and rnd.random() < 0.6:
            k = rnd.randrange(len(p["lcs"]))
            qp.remove_linear_constraint(rnd.choice([k, p["lcs"][k]["n"]]))
            p = dict(p, lcs=p["lcs"][:k] + p["lcs"][k + 1:])
        elif p["qcs"]:
            k = rnd.randrange(len(p["qcs"]))
            qp.remove_quadratic_constraint(rnd.choice([k, p["qcs"][k]["n"]]))
            p = dict(p, qcs=p["qcs"][:k] + p["qcs"][k + 1:])
    # points that satisfy everything but one constraint, or everything
    x = rnd.choice(xs)
    x = [min(max(a, v["l"]), v["u"]) for a, v in zip(x, p["vars"])]
    for c in p["lcs"] + p["qcs"]:
        c["r"] = lhs(c, x) + {"<=": 0.5, ">=": -0.5, "==": 0}[c["s"]]
        (qp.get_linear_constraint if "quad" not in c else qp.get_quadratic_constraint)(c["n"]).rhs = c["r"]
    both = p["lcs"] + p["qcs"]
    ctx.equal(bool(qp.is_feasible(x)), True, "a point that satisfies everything", x=x)
    if both:
        c = rnd.choice(both)
        c["r"] += {"<=": -0.75, ">=": 0.75, "==": 1e-6}[c["s"]]
        (qp.get_linear_constraint if "quad" not in c else qp.get_quadratic_constraint)(c["n"]).rhs = c["r"]
        ok, vs, cs = qp.get_feasibility_info(np.array(x) if s["arr"] else x)
        ctx.equal((bool(ok), [v.name for v in vs], [k.name for k in cs]), (False, [], [c["n"]]), "exactly one violated constraint", x=x)
        ctx.nontrivial(len(both) >= 5)
    ctx.label(s["b"]["kind"], "constraints={}".format(len(both) // 5 * 5))


@st.composite
def magnitude_case(draw):
    n = draw(st.integers(1, 3))
    e = draw(st.sampled_from([20, 24, 30, 31, 32, 40, -20, -40]))
    ks = st.integers(1, 9)
    return {"e": e, "x": draw(st.lists(st.tuples(ks, st.sampled_from([1, -1]), st.integers(-3, 3)).map(list), min_size=n, max_size=n)),
            "t": draw(st.sampled_from("IC")),
            "cs": draw(st.lists(st.fixed_dictionaries({
                "k": st.lists(st.integers(-5, 5), min_size=n, max_size=n), "s": st.sampled_from(["<=", ">=", "<=", ">=", "=="]),
                "off": st.integers(-2, 2), "sq": st.booleans()}), min_size=1, max_size=4)),
            "b": draw(st.lists(st.tuples(st.integers(-1, 3), st.integers(-1, 3)).map(list), min_size=n, max_size=n)), "arr": draw(st.booleans())}


def check_magnitude(s, ctx):
    """large (or tiny) numbers that differ in their last digits; everything is exact in binary arithmetic"""
    big, one = 2.0 ** s["e"], 1.0 if s["e"] > 0 else 2.0 ** (s["e"] - 12)
    x = [k * g * big + d * one for k, g, d in s["x"]]
    n = len(x)
    t = s["t"] if s["e"] > 0 else "C"
    p = {"name": "", "sense": "min", "const": 0, "lin": [], "quad": [], "lcs": [], "qcs": [],
         "vars": [{"n": "x{}".format(i), "t": t, "l": a - lo * one, "u": a + hi * one} for i, (a, (lo, hi)) in enumerate(zip(x, s["b"]))]}
    for v in p["vars"]:
        if v["l"] > v["u"]:
            v["l"], v["u"] = v["u"], v["l"]
    for m, c in enumerate(s["cs"]):
        lin = [[i, k] for i, k in enumerate(c["k"]) if k]
        lhs = sum(k * x[i] for i, k in lin)
        # an equality holds up to rounding: it is missed by a visible fraction or not at all
        off = c["off"] * (one if c["s"] != "==" else max(abs(lhs), 1.0))
        if c["sq"]:
            # the same with a square of a variable that is one
            p["qcs"].append({"n": "q{}".format(m), "lin": lin, "quad": [[n, n, 1]], "s": c["s"], "r": lhs + off + 1 if s["e"] > 0 else lhs + off})
        else:
            p["lcs"].append({"n": "c{}".format(m), "lin": lin, "s": c["s"], "r": lhs + off})
    p["vars"].append({"n": "one", "t": "B", "l": 0, "u": 1})
    x = x + [1 if s["e"] > 0 else 0]
    verify(ctx, M.build(p), p, [x], s["arr"])
    ctx.label("e={}".format(s["e"]))


SUBCHECKS = [
    Sub("magnitude", magnitude_case(), check_magnitude, 1000, 12000),
    Sub("large", large_case(), check_large, 500, 6000),
    Sub("feasibility", case(), check, 4000, 80000),
    Sub("rounding", rounding_case(), check_rounding, 800, 8000),
]
