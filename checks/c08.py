"""C08: InequalityToEquality keeps exactly the feasible points."""
from itertools import product

import numpy as np
from hypothesis import strategies as st

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.converters import InequalityToEquality

from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C08"
RULE = (
    "Programs with linear and quadratic constraints of all senses over binary, integer and continuous variables, "
    "integer and fractional coefficients and right-hand sides, in the three slack modes; the converter's mode may be "
    "changed between conversions. Points: all integer points, and quarter-integer points for continuous variables. "
    "Non-trivial: an inequality is both satisfied and violated by some of the points."
)


# almost, but not quite, an integer (and exact in binary)
near_ints = st.tuples(st.integers(-4, 4), st.sampled_from([0, 0, 0, 1, -1, 2 ** 10])).map(lambda t: t[0] + t[1] * 2.0 ** -22).filter(bool)


@st.composite
def case(draw):
    value = draw(st.sampled_from([G.nz_ints, G.nz_ints, G.ints, G.nz_dyadic, near_ints]))
    types = draw(st.sampled_from(["BI", "BI", "BIC"]))
    p = draw(G.problem(types=types, min_n=2, max_n=4, min_lcs=draw(st.sampled_from([0, 1, 1, 2])), max_lcs=3, max_qcs=2, max_range=4, value=value, allow_inf=False, max_points=200))
    if draw(st.integers(0, 3)) == 0:
        for c in p["lcs"] + p["qcs"]:
            c["r"] = c["r"] + draw(st.sampled_from([0, 0.5, -0.25, 2.0 ** -22, -2.0 ** -22]))
    G.widen(draw, p, 7)
    G.fix_binaries(draw, p)
    G.blank_rows(draw, p)
    n = len(p["vars"])
    return {
        "p": p,
        "mode": draw(st.sampled_from(["auto", "integer", "continuous"])),
        "via": draw(st.sampled_from(["init", "setter"])),
        "cont": draw(st.lists(st.lists(st.integers(0, 24), min_size=n, max_size=n), min_size=2, max_size=4)),
        "lst": draw(st.booleans()),
        "lf": draw(G.lfmts),
        "qf": draw(G.qfmts),
    }


def is_int(v):
    return float(v).is_integer()


def needs_cont(c, p):
    lin, quad = M.merge_lin(c["lin"]), M.merge_quad(c.get("quad", []))
    vals = list(lin.values()) + list(quad.values())
    vs = {i for i, v in lin.items() if v} | {t for k, v in quad.items() if v for t in k}
    return any(not is_int(v) for v in vals) or any(p["vars"][i]["t"] == "C" for i in vs)


def lists_cont(c, p):
    """a continuous variable or a fraction is written down, if only with terms that vanish"""
    return any(p["vars"][i]["t"] == "C" or not is_int(v) for i, v in c["lin"]) or any(
        "C" in (p["vars"][i]["t"], p["vars"][j]["t"]) or not is_int(v) for i, j, v in c.get("quad", [])
    )


def check(s, ctx):
    p = s["p"]
    if s["mode"] == "integer" and any(lists_cont(c, p) and not needs_cont(c, p) for c in p["lcs"] + p["qcs"]):
        ctx.discard()
    qp = M.build(p, s["lf"], s["qf"])
    snap = M.snapshot(qp)
    conv = InequalityToEquality(s["mode"]) if s["via"] == "init" else InequalityToEquality()
    if s["via"] == "setter":
        conv.mode = s["mode"]
    ctx.equal(conv.mode, s["mode"], "mode property")
    ineq = [c for c in p["lcs"] + p["qcs"] if c["s"] != "=="]
    if s["mode"] == "integer" and any(needs_cont(c, p) for c in ineq):
        ctx.raises(QiskitOptimizationError, lambda: conv.convert(qp), "integer slack is impossible and must be rejected")
        ctx.equal(M.snapshot(qp), snap, "the source must not change")
        ctx.label("rejected")
        return
    dst = conv.convert(qp)
    ctx.equal(M.snapshot(qp), snap, "the source must not change")
    ctx.check(dst is not qp, "a new program is returned")
    n = len(p["vars"])
    names = [v["n"] for v in p["vars"]]
    d = M.read(dst)
    ctx.equal(d["name"], p["name"], "name")
    dn = [v["n"] for v in d["vars"]]
    by = {v["n"]: v for v in d["vars"]}
    for v in p["vars"]:
        w = by.get(v["n"])
        ctx.check(w is not None and (w["t"], w["l"], w["u"]) == (v["t"], v["l"], v["u"]), "original variables are kept", var=v, got=w)
    slack = [k for k, nm in enumerate(dn) if nm not in names]
    pos = {nm: k for k, nm in enumerate(dn)}
    ctx.equal([c["n"] for c in d["lcs"]], [c["n"] for c in p["lcs"]], "linear constraint names")
    ctx.equal([c["n"] for c in d["qcs"]], [c["n"] for c in p["qcs"]], "quadratic constraint names")
    ctx.check(all(c["s"] == "==" for c in d["lcs"] + d["qcs"]), "only equalities remain")
    owner = {}
    for src, c in list(zip(p["lcs"], d["lcs"])) + list(zip(p["qcs"], d["qcs"])):
        mine = [(i, v) for i, v in c["lin"] if i in slack]
        ctx.check(len(mine) <= 1, "at most one slack variable per constraint", c=c)
        ctx.check(not any(i in slack or j in slack for i, j, _ in c.get("quad", [])), "slack variables appear linearly")
        if src["s"] == "==":
            ctx.check(not mine, "equalities get no slack variable", c=c)
        for i, _ in mine:
            ctx.check(i not in owner, "a slack variable belongs to one constraint", i=i)
            owner[i] = c["n"]
            t = d["vars"][i]["t"]
            if s["mode"] == "integer":
                ctx.equal(t, "I", "slack type in mode integer")
            elif s["mode"] == "continuous":
                ctx.equal(t, "C", "slack type in mode continuous")
            elif needs_cont(src, p):
                ctx.equal(t, "C", "slack type in mode auto", c=c)
            elif not lists_cont(src, p):
                ctx.equal(t, "I", "slack type in mode auto", c=c)
    ctx.equal(sorted(owner), slack, "every new variable is the slack of a constraint")

    # the points
    cont = [i for i, v in enumerate(p["vars"]) if v["t"] == "C"]
    base = list(product(*[list(M.domain(v)) if v["t"] != "C" else [0] for v in p["vars"]])) if "pts" not in s else []
    pts = s.get("pts", [])
    for row in s["cont"] if cont else s["cont"][:1]:
        for b in base:
            x = list(b)
            for i in cont:
                v = p["vars"][i]
                x[i] = min(v["u"], v["l"] + row[i] / 4)
            pts.append(x)
    sat = {True: 0, False: 0}
    for x in pts:
        f = M.constraints_ok(p, x)
        y = [0.0] * len(dn)
        for i, nm in enumerate(names):
            y[pos[nm]] = x[i]
        ok = True
        for c in d["lcs"] + d["qcs"]:
            mine = [(i, v) for i, v in c["lin"] if i in slack]
            lhs = M.ev_lin([t for t in c["lin"] if t[0] not in slack], y) + M.ev_quad(c.get("quad", []), y)
            if not mine:
                ok &= lhs == c["r"]
                continue
            i, v = mine[0]
            val = (c["r"] - lhs) / v
            y[i] = val
            w = d["vars"][i]
            ok &= w["l"] <= val <= w["u"] and (w["t"] == "C" or is_int(val))
        ctx.equal(ok, f, "a point is feasible iff it extends to a feasible point of the converted program", x=x, y=y)
        sat[f] += 1
        ctx.close(dst.objective.evaluate(y), M.objective(p, x), "objective is preserved", x=x)
        z = conv.interpret(y if s["lst"] else np.array(y))
        ctx.equal([float(a) for a in z], [float(a) for a in x], "interpret drops the slack variables")
        if f:
            ctx.equal(bool(dst.is_feasible(y)), True, "the extended point is feasible", y=y)
    ctx.equal(d["sense"], p["sense"], "sense")
    ctx.nontrivial(bool(ineq) and sat[True] and sat[False])
    ctx.label("mode=" + s["mode"], "ineqs={}".format(len(ineq)), "cont" if cont else "discrete")


@st.composite
def bad_case(draw):
    p = draw(G.problem(types="BI", max_n=3, max_lcs=2, max_qcs=1, value=G.ints, allow_inf=False))
    return {"p": p, "mode": draw(st.sampled_from(["int", "", "AUTO", "cont", "none"]))}


def check_bad(s, ctx):
    p = s["p"]
    if not any(c["s"] != "==" for c in p["lcs"] + p["qcs"]):
        ctx.discard()
    qp = M.build(p)
    ctx.raises(QiskitOptimizationError, lambda: InequalityToEquality(s["mode"]).convert(qp), "unknown mode must be rejected", mode=s["mode"])
    ctx.nontrivial()


@st.composite
def large_case(draw):
    return {"b": draw(G.large(types=draw(st.sampled_from(["BI", "BIC"])), max_n=14, max_lcs=14, max_qcs=5, kinds=["int", "dyadic", "rough", "tiny"],
                              ckinds=["int", "int", "dyadic", "huge"])), "mode": draw(st.sampled_from(["auto", "integer", "continuous"])),
            "seed": draw(st.integers(0, 10 ** 6)), "half": draw(st.sampled_from([0, 0, 0.5]))}


def check_large(s, ctx):
    """many constraints at once; each has its own slack, satisfied with room, exactly or missed by a little"""
    import random

    p = G.expand(s["b"])
    rnd = random.Random(s["seed"])
    pts = G.some_points(p, s["seed"], 10)
    x = rnd.choice(pts)
    for c in p["lcs"] + p["qcs"]:
        at = M.ev_lin(c["lin"], x) + M.ev_quad(c.get("quad", []), x)
        if rnd.random() < 0.9:
            # most constraints hold at x, often without any room
            c["r"] = at + {"<=": 1, ">=": -1, "==": 0}[c["s"]] * (rnd.choice([0, 0, 1, 2]) + s["half"])
        else:
            c["r"] = at + rnd.choice([-1, 1, 0])
    check({"p": p, "mode": s["mode"], "via": "init", "cont": [], "pts": pts, "lst": rnd.random() < 0.5, "lf": "index", "qf": "name"}, ctx)
    ctx.label("constraints={}".format(len(p["lcs"] + p["qcs"]) // 5 * 5))
    ctx.nontrivial(len(p["lcs"] + p["qcs"]) > 5)


SUBCHECKS = [
    Sub("large", large_case(), check_large, 500, 6000),
    Sub("slack", case(), check, 4000, 40000,
        explicit=[{"p": {"name": "", "vars": [{"n": "x", "t": "C", "l": 0, "u": 3}, {"n": "b", "t": "B", "l": 0, "u": 1}],
                         "sense": "min", "const": 0, "lin": [[0, 1]], "quad": [],
                         "lcs": [{"n": "k", "lin": [[0, 1], [1, 1]], "s": "<=", "r": 2}],
                         "qcs": [{"n": "k", "lin": [], "quad": [[0, 1, 1]], "s": "<=", "r": 1}]},
                   "mode": "auto", "via": "init", "cont": [[2, 0], [9, 0]], "lst": True, "lf": "index", "qf": "index"}]),
    Sub("badmode", bad_case(), check_bad, 100, 500),
]
