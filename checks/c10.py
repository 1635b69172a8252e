"""C10: QuadraticProgramToQubo: the optima of the QUBO are the optima of the source program."""
from itertools import product

import numpy as np
from hypothesis import strategies as st

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.converters import QuadraticProgramToQubo

from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C10"
RULE = (
    "Integer programs (binary and bounded integer variables, linear constraints of all senses, integer constraint "
    "coefficients, integer or fractional right-hand sides, integer or fractional objective) converted with automatic or "
    "explicit penalties, with one converter reused; both sides are solved by enumeration. The compat subcheck also "
    "generates continuous variables, quadratic constraints and fractional coefficients. Non-trivial: constraints "
    "exclude some points and leave some."
)

MAXBITS = 11


def slack_bits(p):
    n = 0
    for v in p["vars"]:
        n += 1 if v["t"] == "B" else max(1, (len(M.domain(v)) - 1).bit_length())
    for c in p["lcs"]:
        if c["s"] == "==":
            continue
        lo = sum(min(v * p["vars"][i]["l"], v * p["vars"][i]["u"]) for i, v in M.merge_lin(c["lin"]).items())
        hi = sum(max(v * p["vars"][i]["l"], v * p["vars"][i]["u"]) for i, v in M.merge_lin(c["lin"]).items())
        r = c["r"] - lo if c["s"] == "<=" else hi - c["r"]
        n += max(0, int(r)).bit_length()
    return n


small = st.integers(-3, 3).filter(bool)


@st.composite
def prog(draw, fix=False):
    p = draw(G.problem(types=draw(st.sampled_from(["B", "BI", "I"])), min_n=1, max_n=4, max_range=3,
                       value=draw(st.sampled_from([G.nz_ints, G.ints, G.nz_dyadic])), cvalue=small,
                       min_lcs=draw(st.sampled_from([0, 1, 1])), max_lcs=2, allow_inf=False))
    if draw(st.integers(0, 5)) == 0:
        for c in p["lcs"]:
            c["r"] += draw(st.sampled_from([0, 0.5, -0.25]))
    G.widen(draw, p, 7)
    if fix:
        G.fix_binaries(draw, p)
    G.blank_rows(draw, p, 15)
    while p["lcs"] and slack_bits(p) > MAXBITS:
        p["lcs"].pop()
    return p


@st.composite
def case(draw):
    return {
        "steps": [
            {"p": draw(prog(fix=True)), "lf": draw(G.lfmts), "qf": draw(G.qfmts),
             "pen": draw(st.sampled_from(["keep", "keep", None, 20000.0, 10000, 0]))}
            for _ in range(draw(st.sampled_from([1, 1, 2])))
        ],
        "init": draw(st.sampled_from([None, None, None, 10000.0])),
        "lst": draw(st.booleans()),
    }


def qubo_values(d):
    """all assignments and the objective there, from the public coefficients"""
    n = len(d["vars"])
    Z = np.array(list(product((0, 1), repeat=n)), dtype=float).reshape(2 ** n, n)
    lin = np.zeros(n)
    for i, v in d["lin"]:
        lin[i] += v
    Q = np.zeros((n, n))
    for i, j, v in d["quad"]:
        Q[i, j] += v
    return Z, d["const"] + Z @ lin + np.einsum("ki,ij,kj->k", Z, Q, Z)


def check(s, ctx):
    conv = QuadraticProgramToQubo(s["init"])
    setting = s["init"]
    ctx.equal(conv.penalty, setting, "penalty of the constructor")
    for step in s["steps"]:
        p = step["p"]
        if step["pen"] != "keep":
            conv.penalty = setting = step["pen"]
            ctx.equal(conv.penalty, setting, "penalty set through the property")
        qp = M.build(p, step["lf"], step["qf"])
        snap = M.snapshot(qp)
        ctx.check(conv.is_compatible(qp) and conv.get_compatibility_msg(qp) == "", "an integer program is compatible")
        dst = conv.convert(qp)
        ctx.equal(M.snapshot(qp), snap, "the source must not change")
        d = M.read(dst)
        if setting is not None:
            ctx.equal(conv.penalty, setting, "explicit penalty is kept")
        ctx.equal((d["lcs"], d["qcs"]), ([], []), "a QUBO has no constraints")
        ctx.check(all((v["t"], v["l"], v["u"]) == ("B", 0, 1) for v in d["vars"]), "a QUBO has binary variables only")
        ctx.equal(d["name"], p["name"], "name")
        ctx.equal(d["sense"], p["sense"], "sense")
        if len(d["vars"]) > 14:
            ctx.discard()
        Z, F = qubo_values(d)
        for k in (0, len(F) // 2, len(F) - 1):
            ctx.close(dst.objective.evaluate(Z[k]), F[k], "evaluation of the QUBO objective")
        sign = M.sgn(p)
        best, arg = M.brute(p)
        # every value of a QUBO point is that of the interpreted point or worse, equal where slacks fit
        by_x = {}
        for z, f in zip(Z, F):
            x = conv.interpret([int(a) for a in z] if s["lst"] else z)
            ctx.equal(len(x), len(p["vars"]), "length of an interpreted point")
            key = tuple(float(a) for a in x)
            if key not in by_x or sign * f < sign * by_x[key]:
                by_x[key] = f
        want = {tuple(float(a) for a in x) for x in M.points(p)}
        ctx.check(set(by_x) == want, "the interpreted points are the integer points of the source",
                  missing=sorted(want - set(by_x))[:3], extra=sorted(set(by_x) - want)[:3])
        for x, f in by_x.items():
            fx = M.objective(p, x)
            if setting == 0 or M.constraints_ok(p, x):
                ctx.close(f, fx, "the best QUBO value of a feasible point is its objective value", tol=1e-8, x=x)
            else:
                ctx.check(sign * (f - fx) > 0, "an infeasible point is penalised", x=x, got=f, objective=fx)
        opt = F.min() if sign > 0 else F.max()
        if setting == 0:
            ctx.label("no penalty")
            continue
        if best is None:
            ctx.label("infeasible")
            continue
        ctx.close(opt, best, "optimal values agree", tol=1e-8, penalty=conv.penalty)
        got = {tuple(float(a) for a in conv.interpret(z)) for z, f in zip(Z, F) if abs(f - opt) <= 1e-8 * max(1, abs(opt))}
        ctx.equal(got, {tuple(float(a) for a in x) for x in arg}, "optimal points agree", penalty=conv.penalty)
        ctx.nontrivial(any(not M.constraints_ok(p, x) for x in M.points(p)))
    ctx.label("steps={}".format(len(s["steps"])), "auto" if setting is None else "explicit")


@st.composite
def compat_case(draw):
    return {"p": draw(G.problem(types="BIIC", max_n=3, max_range=3, max_lcs=2, max_qcs=1, allow_inf=False,
                                cvalue=draw(st.sampled_from([G.nz_ints, G.nz_dyadic]))))}


def check_compat(s, ctx):
    p = s["p"]
    qp = M.build(p)
    frac = any(not float(v).is_integer() for c in p["lcs"] for v in M.merge_lin(c["lin"]).values())
    cont = any(v["t"] == "C" for v in p["vars"])
    bad = frac or cont or bool(p["qcs"])
    conv = QuadraticProgramToQubo()
    ctx.equal(conv.is_compatible(qp), not bad, "compatible iff integer variables, linear constraints, integer coefficients")
    ctx.equal(bool(QuadraticProgramToQubo.get_compatibility_msg(qp)), bad, "a message iff incompatible")
    if bad:
        snap = M.snapshot(qp)
        ctx.raises(QiskitOptimizationError, lambda: conv.convert(qp), "incompatible programs must be rejected")
        ctx.equal(M.snapshot(qp), snap, "the source must not change")
    else:
        conv.convert(qp)
    ctx.label("bad" if bad else "good")
    ctx.nontrivial(frac + cont + bool(p["qcs"]) == 1)


@st.composite
def large_case(draw):
    return {"b": draw(G.large(types=draw(st.sampled_from(["B", "B", "BBBI"])), min_n=5, max_n=9, max_lcs=5, ckinds=["int"], range=3)), "seed": draw(st.integers(0, 10 ** 6)),
            "unit": draw(st.booleans())}


def check_large(s, ctx):
    """more variables and constraints, objectives in any unit"""
    import random

    p = G.expand(s["b"])
    rnd = random.Random(s["seed"])
    x = G.some_points(p, s["seed"], 1)[0]
    for c in p["lcs"]:
        if s["unit"]:
            c["lin"] = [[i, 1 if v > 0 else -1] for i, v in c["lin"]]
        c["r"] = M.ev_lin(c["lin"], x) + {"<=": 1, ">=": -1, "==": 0}[c["s"]] * rnd.choice([0, 0, 1])
    while p["lcs"] and slack_bits(p) > 15:
        p["lcs"].pop()
    if slack_bits(p) > 15:
        ctx.discard()
    qp = M.build(p)
    conv = QuadraticProgramToQubo()
    dst = conv.convert(qp)
    d = M.read(dst)
    ctx.equal((d["lcs"], d["qcs"], d["sense"]), ([], [], p["sense"]), "a QUBO has no constraints")
    ctx.check(all((v["t"], v["l"], v["u"]) == ("B", 0, 1) for v in d["vars"]), "a QUBO has binary variables only")
    n = len(d["vars"])
    if n > 17:
        ctx.discard()
    K = np.arange(2 ** n)
    bits = [((K >> q) & 1).astype(float) for q in range(n)]
    F = np.full(2 ** n, d["const"])
    mag = abs(d["const"])
    for i, v in d["lin"]:
        F += v * bits[i]
        mag += abs(v)
    for i, j, v in d["quad"]:
        F += v * bits[i] * bits[j]
        mag += abs(v)
    tol = 1e-11 * mag
    sg = M.sgn(p)
    best, _ = M.brute(p)
    opt = F[(sg * F).argmin()]
    ctx.check(abs(opt - best) <= tol, "optimal values agree", got=float(opt), want=best, penalty=conv.penalty)
    near = np.nonzero(sg * F <= sg * opt + tol)[0]
    for k in near[:20]:
        y = [float(a) for a in conv.interpret([bits[q][k] for q in range(n)])]
        ctx.check(M.feasible(p, y) and abs(M.objective(p, y) - best) <= 2 * tol, "an optimum of the QUBO is an optimum of the program", x=y)
    for _ in range(10):
        k = rnd.randrange(2 ** n)
        z = [bits[q][k] for q in range(n)]
        ctx.check(abs(dst.objective.evaluate(z) - F[k]) <= tol, "evaluation of the QUBO objective")
        y = [float(a) for a in conv.interpret(z)]
        ctx.check(M.bounds_ok(p, y) and all(a.is_integer() for a in y), "interpreted points are integer points of the source", x=y)
        ctx.check(sg * F[k] >= sg * M.objective(p, y) - tol, "no assignment is better than the point it encodes", x=y)
    ctx.nontrivial(len(p["lcs"]) >= 2)
    ctx.label(s["b"]["kind"], "bits={}".format(n), "constraints={}".format(len(p["lcs"])))


SUBCHECKS = [
    Sub("large", large_case(), check_large, 300, 4000),
    Sub("optimum", case(), check, 4000, 40000),
    Sub("compat", compat_case(), check_compat, 1500, 5000),
]
