"""C09: LinearEqualityToPenalty adds exactly penalty * violation**2, and its own penalty separates."""
from itertools import product

import numpy as np
from hypothesis import strategies as st

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.converters import LinearEqualityToPenalty

from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C09"
RULE = (
    "Histories of one converter: explicit or automatic penalty, set in the constructor or through the property (also "
    "back to None), one to three conversions of programs with linear equalities over binary, integer and continuous "
    "variables; all integer points are enumerated (continuous variables take sampled quarter-integer values). "
    "Non-trivial: some point violates a constraint and some point satisfies all of them."
)


@st.composite
def prog(draw):
    kind = draw(st.integers(0, 3))
    p = draw(
        G.problem(
            types="BI" if kind else "BIC", min_n=1, max_n=4, max_range=5, value=G.dyadic if kind == 1 else G.nz_ints,
            cvalue=G.nz_dyadic if kind == 2 else G.nz_ints, min_lcs=draw(st.sampled_from([0, 1, 1])), max_lcs=3,
            senses=("==",), allow_inf=False, max_points=300,
        )
    )
    G.fix_binaries(draw, p)
    G.blank_rows(draw, p)
    for v in p["vars"]:
        if v["t"] == "C":
            k = draw(st.integers(0, 4))
            if k in (1, 3):
                v["l"] = -G.INF
            if k in (2, 3):
                v["u"] = G.INF
    return p


penalties = st.one_of(st.none(), st.none(), st.sampled_from([0, 1, 2.5, 10, 1e5, 0.125]))


@st.composite
def case(draw):
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        steps.append({
            "p": draw(prog()),
            "set": draw(st.booleans()),
            "pen": draw(penalties),
            "cv": draw(st.lists(st.integers(-12, 12), min_size=4, max_size=4)),
            "lf": draw(G.lfmts),
            "qf": draw(G.qfmts),
        })
    return {"init": draw(penalties), "steps": steps, "lst": draw(st.booleans())}


def integral(p):
    return all(float(c["r"]).is_integer() and all(float(v).is_integer() for v in M.merge_lin(c["lin"]).values()) for c in p["lcs"])


def check(s, ctx):
    conv = LinearEqualityToPenalty(s["init"]) if s["init"] is not None else LinearEqualityToPenalty()
    ctx.equal(conv.penalty, s["init"], "the penalty given to the constructor")
    setting = s["init"]
    nontriv = False
    for step in s["steps"]:
        p = step["p"]
        qp = M.build(p, step["lf"], step["qf"])
        if step["set"]:
            conv.penalty = step["pen"]
            setting = step["pen"]
            ctx.equal(conv.penalty, step["pen"], "the penalty set through the property")
        snap = M.snapshot(qp)
        dst = conv.convert(qp)
        ctx.equal(M.snapshot(qp), snap, "the source must not change")
        pen = conv.penalty
        if setting is not None:
            ctx.equal(pen, setting, "an explicit penalty is used as given")
        ctx.check(pen is not None and (pen > 0 or setting is not None), "the penalty used is reported", penalty=pen)
        d = M.read(dst)
        ctx.equal(d["name"], p["name"], "name")
        ctx.equal(d["sense"], p["sense"], "sense")
        ctx.equal(d["vars"], M.normal(p)["vars"], "variables")
        ctx.equal((d["lcs"], d["qcs"]), ([], []), "no constraints remain")
        sign = M.sgn(p)
        dims = [list(M.domain(v)) if v["t"] != "C" else [step["cv"][i] / 4] for i, v in enumerate(p["vars"])]
        worst_feasible = best_infeasible = None
        for x in product(*dims):
            x = list(x)
            viol = sum((c["r"] - M.ev_lin(c["lin"], x)) ** 2 for c in p["lcs"])
            f = M.objective(p, x)
            want = f + sign * pen * viol
            got = dst.objective.evaluate(x)
            scale = abs(f) + pen * sum((abs(c["r"]) + sum(abs(v * x[i]) for i, v in c["lin"])) ** 2 for c in p["lcs"])
            ctx.check(abs(got - want) <= 1e-12 * max(1, scale) * 100, "objective + sense * penalty * violation**2",
                      x=x, got=got, want=want, penalty=pen)
            y = conv.interpret(x if s["lst"] else np.array(x))
            ctx.equal([float(a) for a in y], [float(a) for a in x], "interpret is the identity")
            if viol:
                if best_infeasible is None or sign * got < sign * best_infeasible:
                    best_infeasible = got
            elif worst_feasible is None or sign * got > sign * worst_feasible:
                worst_feasible = got
        if best_infeasible is not None and worst_feasible is not None:
            nontriv = True
            if setting is None and integral(p) and not any(v["t"] == "C" for v in p["vars"]):
                ctx.label("separation")
                ctx.check(sign * worst_feasible < sign * best_infeasible,
                          "with the automatic penalty every infeasible point is worse than every feasible one",
                          feasible=worst_feasible, infeasible=best_infeasible, penalty=pen)
        ctx.raises(QiskitOptimizationError, lambda: conv.interpret([0] * (len(p["vars"]) + 1)), "a result of the wrong length")
    ctx.nontrivial(nontriv)
    ctx.label("steps={}".format(len(s["steps"])), "auto" if setting is None else "explicit")


@st.composite
def reject_case(draw):
    p = draw(G.problem(types="BI", max_n=3, max_range=3, value=G.nz_ints, max_lcs=3, max_qcs=1, allow_inf=False))
    return {"p": p, "pen": draw(penalties)}


def check_reject(s, ctx):
    """what cannot be penalised must be refused, not dropped"""
    p = s["p"]
    qp = M.build(p)
    conv = LinearEqualityToPenalty(s["pen"])
    bad = bool(p["qcs"]) or any(c["s"] != "==" for c in p["lcs"])
    if bad:
        snap = M.snapshot(qp)
        ctx.raises(QiskitOptimizationError, lambda: conv.convert(qp), "inequality and quadratic constraints must be rejected")
        ctx.equal(M.snapshot(qp), snap, "the source must not change")
        ctx.nontrivial()
        # and the converter still works
        q = dict(p, lcs=[dict(c, s="==") for c in p["lcs"]], qcs=[])
        dst = conv.convert(M.build(q))
        for x in M.points(q):
            want = M.objective(q, x) + M.sgn(q) * conv.penalty * sum((c["r"] - M.ev_lin(c["lin"], x)) ** 2 for c in q["lcs"])
            ctx.close(dst.objective.evaluate(list(x)), want, "conversion after a rejected one", x=x)
    else:
        ctx.equal(conv.convert(qp).get_num_linear_constraints(), 0, "no constraints remain")


@st.composite
def large_case(draw):
    return {"b": draw(G.large(types=draw(st.sampled_from(["B", "BI"])), max_n=11, max_lcs=10, ckinds=["int", "int", "dyadic", "rough"], senses=["=="])),
            "pen": draw(penalties), "seed": draw(st.integers(0, 10 ** 6))}


def check_large(s, ctx):
    """many variables and constraints, objectives in any unit"""
    p = G.expand(s["b"])
    if len(p["vars"]) and s["b"]["ckind"] == "int":
        # all equalities hold at one point
        x = G.some_points(p, s["seed"] + 1, 1)[0]
        for c in p["lcs"]:
            c["r"] = M.ev_lin(c["lin"], x)
    qp = M.build(p)
    conv = LinearEqualityToPenalty(s["pen"])
    dst = conv.convert(qp)
    d = M.read(dst)
    pen = conv.penalty
    if s["pen"] is not None:
        ctx.equal(pen, s["pen"], "an explicit penalty is used as given")
    ctx.equal(d["vars"], M.normal(p)["vars"], "variables")
    ctx.equal((d["lcs"], d["qcs"], d["sense"]), ([], [], p["sense"]), "no constraints remain")
    n = len(p["vars"])
    if M.num_points(p) <= 5000:
        X = np.array(list(M.points(p)), dtype=float).reshape(-1, n)
    else:
        X = np.array(G.some_points(p, s["seed"], 60), dtype=float)

    def value(spec):
        f = np.full(len(X), float(spec["const"]))
        a = np.full(len(X), abs(float(spec["const"])))
        for i, v in spec["lin"]:
            f += v * X[:, i]
            a += np.abs(v * X[:, i])
        for i, j, v in spec["quad"]:
            f += v * X[:, i] * X[:, j]
            a += np.abs(v * X[:, i] * X[:, j])
        return f, a

    got, ga = value(d)
    f, fa = value(p)
    viol = np.zeros(len(X))
    for c in p["lcs"]:
        t = np.full(len(X), -float(c["r"]))
        for i, v in c["lin"]:
            t += v * X[:, i]
        viol += t ** 2
    want = f + M.sgn(p) * pen * viol
    err = np.abs(got - want) - 1e-12 * (ga + fa + 1)
    k = int(err.argmax())
    ctx.check(err[k] <= 0, "objective + sense * penalty * violation**2", x=X[k].tolist(), got=float(got[k]), want=float(want[k]), penalty=pen)
    ctx.close(dst.objective.evaluate(X[0]), got[0], "evaluation", tol=1e-8)
    bad = viol > 1e-9
    if s["pen"] is None and s["b"]["ckind"] == "int" and bad.any() and not bad.all():
        sg = M.sgn(p)
        ctx.check((sg * got[bad]).min() > (sg * got[~bad]).min(), "no infeasible point is as good as the best feasible one", penalty=pen)
        ctx.label("separation")
    ctx.nontrivial(bool(bad.any()) and len(p["lcs"]) >= 3)
    ctx.label(s["b"]["kind"], "auto" if s["pen"] is None else "explicit")


SUBCHECKS = [
    Sub("large", large_case(), check_large, 400, 5000),
    Sub("penalty", case(), check, 4000, 40000),
    Sub("reject", reject_case(), check_reject, 600, 5000),
]
