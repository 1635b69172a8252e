"""C11: converters can be reused: every conversion is what a fresh converter would give."""
import copy

import numpy as np
from hypothesis import strategies as st

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.converters import (
    InequalityToEquality,
    IntegerToBinary,
    LinearEqualityToPenalty,
    QuadraticProgramToQubo,
)

from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C11"
RULE = (
    "Histories of up to 6 steps on one converter object (any of the four): convert one of three programs sharing "
    "variable and constraint names, change the penalty or the mode, edit a returned program or a source program, "
    "convert a program that is rejected, interpret. After every step the result is compared with a fresh converter "
    "doing only that step. Non-trivial: at least two accepted conversions of different programs."
)

KINDS = ["int2bin", "ineq", "penalty", "qubo"]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(KINDS))
    senses = ("==",) if kind == "penalty" else ("<=", ">=", "==")
    progs = []
    for _ in range(draw(st.integers(2, 3))):
        progs.append(
            draw(G.problem(types="BI" if kind != "int2bin" else "BIIC", min_n=1, max_n=4, max_range=5,
                           value=draw(st.sampled_from([G.nz_ints, G.nz_dyadic])), cvalue=G.nz_ints,
                           min_lcs=draw(st.sampled_from([0, 1])), max_lcs=2,
                           max_qcs=2 if kind in ("int2bin", "ineq") else 0, senses=senses, allow_inf=False,
                           pool=["x", "y", "z", "x0", "x1", "s"]))
        )
    k = len(progs) - 1
    op = st.one_of(
        st.tuples(st.just("convert"), st.integers(0, k)),
        st.tuples(st.just("convert"), st.integers(0, k)),
        st.tuples(st.just("set"), st.integers(0, 3)),
        st.tuples(st.just("edit_dst"), st.integers(0, 2)),
        st.tuples(st.just("edit_src"), st.integers(0, k)),
        st.tuples(st.just("reject"), st.integers(0, 2)),
    )
    return {"kind": kind, "progs": progs, "ops": draw(st.lists(op, min_size=2, max_size=6)),
            "bits": draw(st.integers(0, 2 ** 40)), "lst": draw(st.booleans())}


PENS = [None, 7.5, 100, None]
MODES = ["auto", "integer", "continuous", "auto"]


def fresh(kind, k):
    if kind == "int2bin":
        return IntegerToBinary()
    if kind == "ineq":
        return InequalityToEquality(MODES[k])
    if kind == "penalty":
        return LinearEqualityToPenalty(PENS[k])
    return QuadraticProgramToQubo(PENS[k])


def rejected(kind, k):
    """a program that the converter must refuse (None if there is none)"""
    p = {"name": "bad", "vars": [{"n": "x", "t": "B", "l": 0, "u": 1}, {"n": "y", "t": "I", "l": 0, "u": 3}],
         "sense": "max", "const": 9, "lin": [[0, 4]], "quad": [], "lcs": [], "qcs": []}
    if kind == "penalty":
        p["lcs"] = [{"n": "c0", "lin": [[0, 1]], "s": "<=", "r": 1}]
    elif kind == "qubo":
        p["qcs"] = [{"n": "c0", "lin": [[0, 1]], "quad": [[0, 1, 1]], "s": "<=", "r": 1}]
    elif kind == "ineq" and MODES[k] == "integer":
        p["lcs"] = [{"n": "c0", "lin": [[0, 1], [1, 0.5]], "s": "<=", "r": 1}]
    else:
        return None
    return p


def values(d, bits):
    out = []
    for k, v in enumerate(d["vars"]):
        w = int(v["u"] - v["l"]) + 1
        out.append(v["l"] + ((bits >> (k % 40)) % w))
    return out


def check(s, ctx):
    kind = s["kind"]
    conv = fresh(kind, 0)
    setting = 0
    progs = [M.build(p) for p in s["progs"]]
    history = []  # (returned program, expected content)
    converted = set()
    last = None
    for op, k in s["ops"]:
        if op == "set":
            setting = k
            if kind == "ineq":
                conv.mode = MODES[k]
            elif kind in ("penalty", "qubo"):
                conv.penalty = PENS[k]
            continue
        if op == "edit_dst":
            if history:
                qp, _ = history[k % len(history)]
                qp.maximize(constant=k + 50, linear={0: 3})
                if qp.get_num_vars():
                    qp.linear_constraint({0: 1}, "<=", 5, "edited_{}".format(qp.get_num_linear_constraints()))
                history[k % len(history)] = (qp, M.snapshot(qp))
                ctx.label("edit_dst")
        elif op == "edit_src":
            qp = progs[k]
            qp.minimize(constant=k + 20, linear={0: -2})
            for v in qp.variables:
                if v.vartype.name == "INTEGER":
                    v.lowerbound = v.lowerbound - 1
            qp.binary_var("more_{}".format(qp.get_num_vars()))
            ctx.label("edit_src")
        elif op == "reject":
            p = rejected(kind, setting)
            if p is not None:
                ctx.raises(QiskitOptimizationError, lambda: conv.convert(M.build(p)), "must be rejected", kind=kind)
                last = None
                ctx.label("reject")
        else:
            qp = progs[k]
            frac = any(not float(v).is_integer() for c in qp.linear_constraints + qp.quadratic_constraints
                       for v in c.linear.to_dict().values())
            ctx.check(not frac, "generator")
            snap = M.snapshot(qp)
            other = fresh(kind, setting)
            # of a copy: what happens to the caller's program later must not matter
            want_qp = other.convert(copy.deepcopy(qp))
            want = M.snapshot(want_qp)
            dst = conv.convert(qp)
            ctx.equal(M.snapshot(qp), snap, "the source must not change", kind=kind)
            ctx.equal(M.snapshot(dst), want, "a reused converter gives what a fresh one gives", kind=kind)
            ctx.check(all(dst is not q for q, _ in history) and dst is not qp, "every conversion returns a new program")
            history.append((dst, want))
            converted.add(k)
            last = (other, want, len(qp.variables))
            if kind in ("penalty", "qubo"):
                ctx.equal(conv.penalty, other.penalty, "the penalty of a reused converter")
        for q, w in history:
            ctx.equal(M.snapshot(q), w, "programs returned earlier must not change", kind=kind)
        if last is not None:
            other, want, n = last
            x = values(want, s["bits"])
            arg = x if s["lst"] else np.array(x, dtype=float)
            got = [float(a) for a in conv.interpret(arg)]
            ctx.equal(got, [float(a) for a in other.interpret(x)], "interpret follows the last conversion", kind=kind)
            ctx.equal(len(got), n, "length of an interpreted point")
            ctx.equal([float(a) for a in arg], [float(a) for a in x], "interpret must not change its argument")
    ctx.nontrivial(len(converted) > 1)
    ctx.label(kind)


SUBCHECKS = [Sub("history", case(), check, 3000, 40000)]
