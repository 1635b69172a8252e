"""C27: programs own their data: what callers do to what they passed in or got back does not reach a program."""
import copy

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import coo_matrix, csr_matrix, dok_matrix, lil_matrix

from qiskit_optimization import QuadraticProgram
from qiskit_optimization.converters import (
    InequalityToEquality,
    IntegerToBinary,
    LinearEqualityToPenalty,
    QuadraticProgramToQubo,
)

from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C27"
RULE = (
    "inputs: programs built from coefficient containers of every accepted kind (lists, arrays, five sparse formats, "
    "dictionaries), which are then overwritten, and from containers shared by several expressions; outputs: arrays and "
    "dictionaries handed out by every expression, points passed to evaluations, all overwritten; copies: deep copies, "
    "conversions, substitutions, docplex round trips, followed by generated edits of one side. Each time the other side "
    "is compared with its snapshot. Non-trivial: the overwritten container or edited program has a non-zero coefficient."
)
LK = ["list", "array", "int_array", "dict", "name", "dok", "csr", "lil", "coo"]
QK = ["list", "array", "dict", "name", "dok", "csr", "lil", "coo"]
SP = {"dok": dok_matrix, "csr": csr_matrix, "lil": lil_matrix, "coo": coo_matrix}


def lin_container(kind, row, names):
    if kind == "list":
        return list(row)
    if kind == "array":
        return np.array(row, dtype=float)
    if kind == "int_array":
        return np.array([int(v) for v in row])
    if kind == "dict":
        return {i: v for i, v in enumerate(row) if v}
    if kind == "name":
        return {names[i]: v for i, v in enumerate(row) if v}
    return SP[kind](np.array([row], dtype=float))


def quad_container(kind, mat, names):
    n = len(mat)
    if kind == "list":
        return [list(r) for r in mat]
    if kind == "array":
        return np.array(mat, dtype=float)
    if kind == "dict":
        return {(i, j): mat[i][j] for i in range(n) for j in range(n) if mat[i][j]}
    if kind == "name":
        return {(names[i], names[j]): mat[i][j] for i in range(n) for j in range(n) if mat[i][j]}
    return SP[kind](np.array(mat, dtype=float))


def frozen(c):
    if isinstance(c, dict) and not hasattr(c, "todense"):
        return dict(c)
    if isinstance(c, list):
        return copy.deepcopy(c)
    return (type(c).__name__, str(c.dtype), np.array(c.todense() if hasattr(c, "todense") else c).tolist())


def scribble(c):
    """overwrite a container of any kind in place"""
    if isinstance(c, dict) and not hasattr(c, "todense"):
        for k in list(c):
            c[k] = 99
        c.clear()
    elif isinstance(c, list):
        for k, v in enumerate(c):
            if isinstance(v, list):
                scribble(v)
            else:
                c[k] = 99
    elif hasattr(c, "todense"):
        if isinstance(c, dok_matrix):
            for k in list(c.keys()):
                c[k] = 99
            c[0, 0] = 77
        elif isinstance(c, lil_matrix):
            c[0, 0] = 77
            for r in c.data:
                r[:] = [99] * len(r)
        else:
            c.data[:] = 99
    else:
        c[...] = 99


@st.composite
def input_case(draw):
    n = draw(st.integers(1, 4))
    v = draw(st.sampled_from([G.ints, G.dyadic]))
    return {
        "n": n,
        "lin": draw(st.lists(v, min_size=n, max_size=n)),
        "quad": [draw(st.lists(v, min_size=n, max_size=n)) for _ in range(n)],
        "lk": draw(st.sampled_from(LK)),
        "qk": draw(st.sampled_from(QK)),
        "share": draw(st.booleans()),
        "via": draw(st.sampled_from(["create", "assign"])),
        "sense": draw(st.sampled_from(["min", "max"])),
        "edit": [draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)), draw(st.sampled_from(["obj", "lc", "qc"]))],
    }


def program(s, containers):
    n = s["n"]
    qp = QuadraticProgram("p")
    for i in range(n):
        qp.integer_var(-3, 4, "v{}".format(i))
    (lo, qo), (ll, _), (lq, qq) = containers
    f = qp.minimize if s["sense"] == "min" else qp.maximize
    if s["via"] == "create":
        f(1, lo, qo)
        qp.linear_constraint(ll, "<=", 5, "l")
        qp.quadratic_constraint(lq, qq, ">=", -7, "q")
    else:
        f(1)
        qp.linear_constraint({}, "<=", 5, "l")
        qp.quadratic_constraint({}, {}, ">=", -7, "q")
        qp.objective.linear.coefficients = lo
        qp.objective.quadratic.coefficients = qo
        qp.get_linear_constraint("l").linear.coefficients = ll
        qp.get_quadratic_constraint("q").linear.coefficients = lq
        qp.get_quadratic_constraint("q").quadratic.coefficients = qq
    return qp


def check_inputs(s, ctx):
    names = ["v{}".format(i) for i in range(s["n"])]
    row = [int(v) for v in s["lin"]] if s["lk"] == "int_array" else s["lin"]
    mk = lambda: (lin_container(s["lk"], row, names), quad_container(s["qk"], s["quad"], names))  # noqa
    if s["share"]:
        one = mk()
        cs = [one, one, one]
    else:
        cs = [mk(), mk(), mk()]
    before = [[frozen(c) for c in pair] for pair in cs]
    qp = program(s, cs)
    ctx.equal([[frozen(c) for c in pair] for pair in cs], before, "the caller's containers are not changed", lk=s["lk"], qk=s["qk"])
    want = M.snapshot(program(s, [mk(), mk(), mk()]))
    ctx.equal(M.snapshot(qp), want, "shared containers give the same program")
    # edit one expression: containers and the other expressions stay
    i, j, where = s["edit"]
    el = {"obj": qp.objective, "lc": qp.get_linear_constraint("l"), "qc": qp.get_quadratic_constraint("q")}[where]
    rest = {k: e for k, e in (("obj", qp.objective), ("lc", qp.get_linear_constraint("l")), ("qc", qp.get_quadratic_constraint("q"))) if k != where}

    def state(e):
        return (e.linear.to_dict(), e.quadratic.to_dict() if hasattr(e, "quadratic") else None)

    others = {k: state(e) for k, e in rest.items()}
    old = state(el)
    el.linear[i] = 41
    if hasattr(el, "quadratic"):
        el.quadratic[i, j] = 43
    ctx.equal({k: state(e) for k, e in rest.items()}, others, "an edit stays in its expression", where=where)
    ctx.equal([[frozen(c) for c in pair] for pair in cs], before, "an edit does not reach the caller's containers", lk=s["lk"], qk=s["qk"])
    el.linear.coefficients = old[0]
    if hasattr(el, "quadratic"):
        el.quadratic.coefficients = old[1]
    ctx.equal(M.snapshot(qp), want, "restored")
    for pair in cs:
        for c in pair:
            scribble(c)
    ctx.equal(M.snapshot(qp), want, "overwriting the containers does not reach the program", lk=s["lk"], qk=s["qk"])
    ctx.nontrivial(any(s["lin"]) and any(any(r) for r in s["quad"]))
    ctx.label(s["lk"], s["qk"], "shared" if s["share"] else "separate")


# ---------------------------------------------------------------- what a program hands out
@st.composite
def output_case(draw):
    p = draw(G.problem(min_n=1, max_n=4, max_lcs=2, max_qcs=2))
    n = len(p["vars"])
    return {"p": p, "x": draw(st.lists(st.integers(-3, 3), min_size=n, max_size=n)), "xl": draw(st.sampled_from(["list", "array", "dict", "ints"]))}


def check_outputs(s, ctx):
    p = s["p"]
    qp = M.build(p)
    want = M.snapshot(qp)
    names = [v["n"] for v in p["vars"]]
    els = [qp.objective] + qp.linear_constraints + qp.quadratic_constraints
    for e in els:
        parts = [e.linear] + ([e.quadratic] if hasattr(e, "quadratic") else [])
        for part in parts:
            quad = part is not e.linear
            outs = [part.to_array(), part.to_dict(), part.to_dict(use_name=True)]
            if quad:
                outs += [part.to_array(symmetric=True), part.to_dict(symmetric=True), part.to_dict(symmetric=True, use_name=True)]
            outs.append(part.evaluate_gradient([1.0] * len(names)))
            for o in outs:
                if isinstance(o, dict):
                    o.clear()
                    o["extra"] = 1
                else:
                    try:
                        o[...] = 99
                    except ValueError:  # a read-only array cannot be overwritten either
                        pass
            ctx.equal(M.snapshot(qp), want, "overwriting what an expression handed out does not reach the program")
    # points are not changed and not kept
    x = [float(v) for v in s["x"]]
    pt = {"list": lambda: list(x), "array": lambda: np.array(x), "ints": lambda: np.array(s["x"]),
          "dict": lambda: dict(zip(names, x))}[s["xl"]]()
    ref = copy.deepcopy(pt)
    for e in els:
        e.evaluate(pt)
        for part in [e.linear] + ([e.quadratic] if hasattr(e, "quadratic") else []):
            part.evaluate(pt)
            part.evaluate_gradient(pt)
    if s["xl"] != "dict":
        qp.is_feasible(pt)
        qp.get_feasibility_info(pt)
    same = pt == ref if isinstance(pt, (dict, list)) else (pt.dtype == ref.dtype and pt.tolist() == ref.tolist())
    ctx.check(same, "points passed to evaluations are not changed", before=str(ref), after=str(pt))
    ctx.equal(M.snapshot(qp), want, "evaluations do not change the program")
    lst = qp.export_as_lp_string() if not p["qcs"] and not p["lcs"] else ""
    ctx.equal(M.snapshot(qp), want, "an export does not change the program", lp=lst[:60])
    ctx.nontrivial(bool(p["lin"] or p["quad"]))


# ---------------------------------------------------------------- copies and derived programs
EDITS = ["var", "lc", "qc", "obj", "coef", "bound", "rhs", "remove", "clear", "name", "sense"]


@st.composite
def copy_case(draw):
    p = draw(G.problem(types="BI", min_n=2, max_n=4, max_range=3, max_lcs=2, value=G.nz_ints, allow_inf=False))
    return {
        "p": p,
        "how": draw(st.sampled_from(["deepcopy", "deepcopy", "int2bin", "ineq2eq", "penalty", "qubo", "substitute", "docplex"])),
        "edits": draw(st.lists(st.tuples(st.sampled_from(EDITS), st.integers(0, 5), st.integers(-4, 4)), min_size=1, max_size=6)),
        "side": draw(st.sampled_from(["source", "derived"])),
    }


def derive(how, p, qp, ctx):
    if how == "deepcopy":
        return copy.deepcopy(qp)
    if how == "int2bin":
        return IntegerToBinary().convert(qp)
    if how == "ineq2eq":
        return InequalityToEquality().convert(qp)
    if how == "qubo":
        return QuadraticProgramToQubo().convert(qp)
    if how == "penalty":
        if any(c["s"] != "==" for c in p["lcs"]):
            ctx.discard()
        return LinearEqualityToPenalty().convert(qp)
    if how == "substitute":
        return qp.substitute_variables(constants={p["vars"][0]["n"]: p["vars"][0]["l"]})
    for c in p["lcs"]:
        if not any(M.merge_lin(c["lin"]).values()):
            ctx.discard()
    out = QuadraticProgram()
    out.from_docplex(qp.to_docplex())
    return out


def edit(qp, e):
    kind, i, v = e
    n = qp.get_num_vars()
    if kind == "var":
        qp.binary_var("fresh{}_{}".format(n, v + 9))
    elif kind == "lc":
        qp.linear_constraint({qp.variables[i % n].name: v} if n else {}, "<=", v, "fresh_l{}".format(qp.get_num_linear_constraints() + 50))
    elif kind == "qc":
        k = qp.variables[i % n].name if n else None
        qp.quadratic_constraint({}, {(k, k): v} if n else {}, ">=", v, "fresh_q{}".format(qp.get_num_quadratic_constraints() + 50))
    elif kind == "obj":
        qp.minimize(v + 100, {i % n: v} if n else None)
    elif kind == "coef" and n:
        qp.objective.linear[i % n] = 31 + v
        qp.objective.quadratic[i % n, 0] = 29 + v
        for c in qp.linear_constraints:
            c.linear[i % n] = 27 + v
    elif kind == "bound" and n:
        x = qp.variables[i % n]
        x.upperbound = x.upperbound + 5
        x.lowerbound = x.lowerbound - 5
    elif kind == "rhs":
        for c in qp.linear_constraints:
            c.rhs = c.rhs + 17
            c.sense = M.SENSES["=="]
    elif kind == "remove" and qp.get_num_linear_constraints():
        qp.remove_linear_constraint(i % qp.get_num_linear_constraints())
    elif kind == "clear":
        qp.clear()
    elif kind == "name":
        qp.name = "edited"
    elif kind == "sense":
        qp.objective.constant = qp.objective.constant + 3
        qp.objective.sense = type(qp.objective.sense).MAXIMIZE if i % 2 else type(qp.objective.sense).MINIMIZE


def check_copies(s, ctx):
    p = s["p"]
    qp = M.build(p)
    src = M.snapshot(qp)
    out = derive(s["how"], p, qp, ctx)
    ctx.equal(M.snapshot(qp), src, "deriving a program does not change it", how=s["how"])
    if s["how"] == "deepcopy":
        ctx.equal(M.snapshot(out), src, "a deep copy is equal")
    for e in out.variables + out.linear_constraints + out.quadratic_constraints + [out.objective, out.objective.linear, out.objective.quadratic]:
        ctx.check(e.quadratic_program is out, "the parts of a derived program belong to it", how=s["how"], part=type(e).__name__)
    der = M.snapshot(out)
    a, b, keep = (qp, out, der) if s["side"] == "source" else (out, qp, src)
    for e in s["edits"]:
        edit(a, e)
        ctx.equal(M.snapshot(b), keep, "an edit of one program does not reach the other", how=s["how"], edited=s["side"], edit=e)
    for e in b.variables + b.linear_constraints + b.quadratic_constraints + [b.objective, b.objective.linear, b.objective.quadratic]:
        ctx.check(e.quadratic_program is b, "the parts of a program belong to it", how=s["how"], part=type(e).__name__)
    ctx.nontrivial(bool(p["lin"] or p["quad"]))
    ctx.label(s["how"], s["side"])


SUBCHECKS = [
    Sub("inputs", input_case(), check_inputs, 2500, 30000),
    Sub("outputs", output_case(), check_outputs, 1200, 12000),
    Sub("copies", copy_case(), check_copies, 1500, 15000),
]
