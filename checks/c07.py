"""C07: IntegerToBinary encodes exactly the integer points of the source program."""
from itertools import product

import numpy as np
from hypothesis import strategies as st

from qiskit_optimization import QuadraticProgram
from qiskit_optimization.converters import IntegerToBinary

from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C07"
RULE = (
    "Programs mixing binary, integer (negative, zero, one-value, power-of-two and odd ranges) and continuous "
    "variables, products of any two variables in objective and quadratic constraints, all constraint senses. Small "
    "cases enumerate every assignment of the new binaries; the wide subcheck uses ranges up to 10**6 and samples. "
    "Non-trivial: an integer variable occurs with a non-zero coefficient."
)


def bits(v):
    return max(1, int(v["u"] - v["l"]).bit_length()) if v["t"] == "I" else (1 if v["t"] == "B" else 0)


@st.composite
def case(draw):
    p = draw(G.problem(types="BIIC", max_n=4, max_lcs=2, max_qcs=2, max_range=9, allow_inf=False))
    # keep the number of new bits enumerable
    tot = 0
    for v in p["vars"]:
        if tot + bits(v) > 9 and v["t"] == "I":
            v["u"] = v["l"] + 1
        tot += bits(v)
    G.widen(draw, p)
    G.fix_binaries(draw, p)
    G.blank_rows(draw, p)
    n = len(p["vars"])
    return {"p": p, "cv": draw(st.lists(st.integers(-8, 8), min_size=n, max_size=n)), "lst": draw(st.booleans()),
            "lf": draw(G.lfmts), "qf": draw(G.qfmts), "edit": draw(st.booleans())}


def verify_point(ctx, p, dst, conv, z, lst):
    zz = list(z) if lst else np.array(z, dtype=float)
    x = conv.interpret(zz)
    ctx.equal(len(x), len(p["vars"]), "length of the interpreted point")
    x = [float(a) for a in x]
    ctx.close(dst.objective.evaluate(list(z)), M.objective(p, x), "objective is preserved", z=list(z), x=x)
    for c, d in zip(p["lcs"], dst.linear_constraints):
        ctx.close(d.evaluate(list(z)) - d.rhs, M.ev_lin(c["lin"], x) - c["r"], "linear constraint is preserved", z=list(z), x=x)
    for c, d in zip(p["qcs"], dst.quadratic_constraints):
        ctx.close(
            d.evaluate(list(z)) - d.rhs,
            M.ev_lin(c["lin"], x) + M.ev_quad(c["quad"], x) - c["r"],
            "quadratic constraint is preserved",
            z=list(z),
            x=x,
        )
    return x


def structure(ctx, p, dst):
    ctx.equal(dst.get_num_integer_vars(), 0, "no integer variables remain")
    ctx.equal(dst.name, p["name"], "name")
    ctx.equal(dst.objective.sense.name, {"min": "MINIMIZE", "max": "MAXIMIZE"}[p["sense"]], "sense")
    for v in p["vars"]:
        if v["t"] != "I":
            w = dst.get_variable(v["n"])
            ctx.equal((M.VT_INV[w.vartype], w.lowerbound, w.upperbound), (v["t"], v["l"], v["u"]), "kept variable", name=v["n"])
    for v in dst.variables:
        if v.name not in {w["n"] for w in p["vars"] if w["t"] != "I"}:
            ctx.equal((v.vartype.name, v.lowerbound, v.upperbound), ("BINARY", 0, 1), "new variables are binary", name=v.name)
    ctx.equal([c.name for c in dst.linear_constraints], [c["n"] for c in p["lcs"]], "linear constraints")
    ctx.equal([c.name for c in dst.quadratic_constraints], [c["n"] for c in p["qcs"]], "quadratic constraints")
    ctx.equal([M.SENSE_INV[c.sense] for c in dst.linear_constraints], [c["s"] for c in p["lcs"]], "linear senses")
    ctx.equal([M.SENSE_INV[c.sense] for c in dst.quadratic_constraints], [c["s"] for c in p["qcs"]], "quadratic senses")


def used(p):
    u = {i for i, v in p["lin"] if v} | {t for i, j, v in p["quad"] if v for t in (i, j)}
    for c in p["lcs"] + p["qcs"]:
        u |= {i for i, v in c["lin"] if v} | {t for i, j, v in c.get("quad", []) if v for t in (i, j)}
    return u


def check(s, ctx):
    p = s["p"]
    qp = M.build(p, s["lf"], s["qf"])
    snap = M.snapshot(qp)
    conv = IntegerToBinary()
    dst = conv.convert(qp)
    ctx.equal(M.snapshot(qp), snap, "the source must not change")
    ctx.check(dst is not qp, "a new program is returned")
    structure(ctx, p, dst)
    if s["edit"]:
        # what the caller does to the source afterwards does not matter
        for v in qp.variables:
            if v.vartype.name == "INTEGER":
                v.lowerbound = v.lowerbound - 1
        qp.maximize(5)
    cont = [v for v in dst.variables if v.vartype.name == "CONTINUOUS"]
    cval = {v.name: s["cv"][k] / 4 for k, v in enumerate(cont)}
    dims = [(cval[v.name],) if v.name in cval else range(int(v.lowerbound), int(v.upperbound) + 1) for v in dst.variables]
    seen = set()
    for z in product(*dims):
        x = verify_point(ctx, p, dst, conv, z, s["lst"])
        seen.add(tuple(x))
        sol = dict(zip([v.name for v in dst.variables], z))
        for v, a in zip(p["vars"], x):
            if v["t"] == "I":
                ctx.check(a == int(a) and v["l"] <= a <= v["u"], "integer values stay in range", var=v, value=a)
            else:
                ctx.equal(a, float(sol[v["n"]]), "other values are passed through", var=v)
    want = set(
        product(*[[float(a) for a in M.domain(v)] if v["t"] != "C" else [float(cval[v["n"]])] for v in p["vars"]])
    )
    ctx.check(seen == want, "every integer point has an encoding", missing=sorted(want - seen)[:3])
    ints = {i for i, v in enumerate(p["vars"]) if v["t"] == "I"}
    ctx.nontrivial(bool(ints & used(p)))
    ctx.label("ints={}".format(len(ints)), "quad-int" if any(i in ints and j in ints and v for i, j, v in p["quad"]) else "no-quad-int",
              "fractional-bounds" if any(v["t"] == "I" and (v["l"] % 1 or v["u"] % 1) for v in p["vars"]) else "integer-bounds",
              "one-value" if any(v["t"] == "I" and v["l"] == v["u"] for v in p["vars"]) else "ranges")


@st.composite
def wide_case(draw):
    p = draw(G.problem(types="BII", min_n=1, max_n=3, max_lcs=1, max_qcs=1, allow_inf=False, value=G.ints))
    for v in p["vars"]:
        if v["t"] == "I":
            v["l"] = draw(st.one_of(st.integers(-1000, 1000), st.integers(-10 ** 6, 0), st.integers(-2 ** 40, 2 ** 40)))
            v["u"] = v["l"] + draw(st.one_of(st.integers(1, 300), st.sampled_from([2 ** k + d for k in range(1, 20) for d in (-1, 0, 1)])))
    return {"p": p, "seeds": draw(st.lists(st.integers(0, 2 ** 60), min_size=4, max_size=8))}


def check_wide(s, ctx):
    p = s["p"]
    qp = M.build(p)
    conv = IntegerToBinary()
    dst = conv.convert(qp)
    structure(ctx, p, dst)
    m = dst.get_num_vars()
    zs = [[0] * m, [1] * m] + [[(sd >> k) & 1 for k in range(m)] for sd in s["seeds"]]
    for z in zs:
        x = verify_point(ctx, p, dst, conv, z, False)
        for v, a in zip(p["vars"], x):
            ctx.check(v["l"] <= a <= v["u"] and a == int(a), "integer values stay in range", var=v, value=a)
    x0 = [float(a) for a in conv.interpret([0] * m)]
    x1 = [float(a) for a in conv.interpret([1] * m)]
    ctx.equal(x0, [float(v["l"]) for v in p["vars"]], "all zeros encode the lower bounds")
    ctx.equal(x1, [float(v["u"]) for v in p["vars"]], "all ones encode the upper bounds")
    # any value is reachable: the weights of one variable's bits, sorted, leave no gap
    for i, v in enumerate(p["vars"]):
        if v["t"] != "I":
            continue
        w = []
        for k in range(m):
            z = [0] * m
            z[k] = 1
            w.append(float(conv.interpret(z)[i]) - v["l"])
        reach = 0
        for a in sorted(a for a in w if a):
            ctx.check(a <= reach + 1, "a value of the range has no encoding", var=v, weights=w)
            reach += a
        ctx.equal(reach, v["u"] - v["l"], "weights cover the range", var=v, weights=w)
    ctx.nontrivial(any(v["t"] == "I" for v in p["vars"]))


@st.composite
def single_case(draw):
    return {"l": draw(st.integers(-70, 70)), "r": draw(st.integers(0, 70))}


def check_single(s, ctx):
    """exhaustive over the encodings of one variable"""
    qp = QuadraticProgram()
    qp.integer_var(s["l"], s["l"] + s["r"], "x")
    qp.minimize(0, [1], [[1]])
    conv = IntegerToBinary()
    dst = conv.convert(qp)
    m = dst.get_num_vars()
    got = set()
    for z in product((0, 1), repeat=m):
        x = float(conv.interpret(z)[0])
        got.add(x)
        ctx.close(dst.objective.evaluate(list(z)), x + x * x, "objective", z=z)
    ctx.equal(got, {float(a) for a in range(s["l"], s["l"] + s["r"] + 1)}, "encoded values")
    ctx.nontrivial(s["r"] > 1)


@st.composite
def large_case(draw):
    return {"b": draw(G.large(types="BIIC", max_n=14, max_lcs=8, max_qcs=4, kinds=["int", "dyadic", "rough", "tiny"], range=draw(st.sampled_from([12, 40, 1500])))),
            "seed": draw(st.integers(0, 10 ** 6))}


def check_large(s, ctx):
    """many variables, ten and more bits of one variable, coefficients of different size"""
    import random

    p = G.expand(s["b"])
    rnd = random.Random(s["seed"])
    conv = IntegerToBinary()
    dst = conv.convert(M.build(p))
    structure(ctx, p, dst)
    vs = dst.variables
    dom = {v["n"]: v for v in p["vars"]}
    values = [set() for _ in p["vars"]]
    for _ in range(6):
        z = [rnd.randint(0, 1) if v.vartype.name == "BINARY" else rnd.randint(0, 8) / 8 * (v.upperbound - v.lowerbound) + v.lowerbound for v in vs]
        x = verify_point(ctx, p, dst, conv, z, rnd.random() < 0.5)
        sol = {v.name: a for v, a in zip(vs, z)}
        for k, (v, a) in enumerate(zip(p["vars"], x)):
            values[k].add(a)
            if v["t"] == "I":
                ctx.check(a == int(a) and v["l"] <= a <= v["u"], "integer values stay in range", var=v, value=a)
            else:
                ctx.equal(a, float(sol[v["n"]]), "other values are passed through", var=v)
    # each bit belongs to one variable, and the weights of its bits cover the range
    zero = [0 if v.vartype.name == "BINARY" else v.lowerbound for v in vs]
    base = [float(a) for a in conv.interpret(zero)]
    weights = [[] for _ in p["vars"]]
    for k, v in enumerate(vs):
        if v.vartype.name == "BINARY":
            z = list(zero)
            z[k] = 1
            d = [(i, float(a) - b) for i, (a, b) in enumerate(zip(conv.interpret(z), base)) if float(a) != b]
            for i, w in d:
                weights[i].append(w)
            ctx.check(len(d) <= 1, "one bit changes one variable", bit=v.name, changed=d)
    for v, w, b in zip(p["vars"], weights, base):
        if v["t"] == "I":
            ctx.equal(b, float(v["l"]), "all zeros encode the lower bound", var=v)
            reach = 0
            for a in sorted(w):
                ctx.check(0 < a <= reach + 1, "a value of the range has no encoding", var=v, weights=w)
                reach += a
            ctx.equal(reach, v["u"] - v["l"], "weights cover the range", var=v, weights=w)
    ctx.nontrivial(sum(v["t"] == "I" for v in p["vars"]) >= 3)
    ctx.label(s["b"]["kind"], "bits={}".format(len(vs) // 10 * 10))


SUBCHECKS = [
    Sub("large", large_case(), check_large, 300, 4000),
    Sub("exact", case(), check, 600, 12000),
    Sub("wide", wide_case(), check_wide, 800, 12000),
    Sub("single", single_case(), check_single, 240, 3000),
]
