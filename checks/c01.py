"""C01: expressions, objectives and constraints denote the polynomial they were given."""
import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csr_matrix, dok_matrix

from qiskit_optimization import QuadraticProgram
from qiskit_optimization.problems import (
    LinearExpression,
    QuadraticExpression,
    QuadraticObjective,
    LinearConstraint,
    QuadraticConstraint,
)

from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C01"
RULE = (
    "A case is a coefficient set (repeated, symmetric, zero and negative entries included), the format it is given "
    "in (dict by name/index/mixed, list, ndarray of int or float dtype, csr, dok, coo), later coefficient edits, "
    "and evaluation points in every accepted format. Non-trivial: at least one non-zero coefficient and a point "
    "with a non-zero value of the expression or gradient."
)

XF = ["list", "array", "intlist", "dict_name", "dict_index", "dict_partial", "dict_mixed"]


def x_as(fmt, x, names):
    if fmt == "list":
        return [float(v) for v in x]
    if fmt == "array":
        return np.array(x, dtype=float)
    if fmt == "intlist":
        return [int(v) if float(v).is_integer() else v for v in x]
    if fmt == "dict_name":
        return {n: v for n, v in zip(names, x)}
    if fmt == "dict_index":
        return {i: v for i, v in reversed(list(enumerate(x)))}
    if fmt == "dict_partial":
        return {names[i]: v for i, v in enumerate(x) if v != 0}
    return {(names[i] if i % 2 else i): v for i, v in enumerate(x)}


def _dtype_case(fmt, obj, dtype):
    """the same coefficients with an integer dtype where they are integers"""
    if fmt not in ("array", "csr", "dok", "list") or dtype is None:
        return obj
    arr = obj if fmt in ("array", "list") else obj.toarray()
    arr = np.array(arr)
    if not np.all(arr == np.round(arr)) or (dtype.startswith("u") and np.any(arr < 0)) or np.any(np.abs(arr) > 100):
        return obj
    arr = arr.astype(dtype)
    if fmt == "list":
        return arr.tolist()
    if fmt == "csr":
        return csr_matrix(arr)
    if fmt == "dok":
        return dok_matrix(arr)
    return arr


DT = st.sampled_from([None, "int64", "int32", "float32", "uint8", "int8"])


@st.composite
def lin_case(draw):
    n = draw(st.integers(1, 6))
    return {
        "names": draw(G.names(n)),
        "lin": draw(G.linear(n, G.wide, repeat=True)),
        "fmt": draw(G.lfmts),
        "dt": draw(DT),
        "sets": draw(st.lists(st.tuples(st.integers(0, n - 1), st.booleans(), G.wide), max_size=3)),
        "x": draw(st.lists(G.wide, min_size=n, max_size=n)),
        "xf": draw(st.sampled_from(XF)),
    }


def qp_with(names):
    qp = QuadraticProgram()
    for i, nm in enumerate(names):
        [qp.binary_var, lambda name: qp.integer_var(-3, 9, name), lambda name: qp.continuous_var(-5, 5, name)][i % 3](
            name=nm
        )
    return qp


def _has_clash(fmt):
    return fmt in ("name", "index", "mixed")


def verify_linear(ctx, e, coef, names, x, xf, tag):
    n = len(names)
    want = float(sum(coef.get(i, 0) * x[i] for i in range(n)))
    ctx.close(e.evaluate(x_as(xf, x, names)), want, tag + ".evaluate", tol=1e-12)
    ctx.all_close(e.to_array(), [coef.get(i, 0) for i in range(n)], tag + ".to_array", tol=1e-12)
    ctx.all_close(e.evaluate_gradient(x_as(xf, x, names)), [coef.get(i, 0) for i in range(n)], tag + ".gradient", tol=1e-12)
    nz = {i: float(v) for i, v in coef.items() if v != 0}
    ctx.equal({k: float(v) for k, v in e.to_dict().items() if v != 0}, nz, tag + ".to_dict")
    ctx.equal(
        {k: float(v) for k, v in e.to_dict(use_name=True).items() if v != 0},
        {names[i]: v for i, v in nz.items()},
        tag + ".to_dict(use_name)",
    )
    for i in range(n):
        ctx.close(e[i], coef.get(i, 0), tag + "[index]", tol=1e-12)
        ctx.close(e[names[i]], coef.get(i, 0), tag + "[name]", tol=1e-12)
    return want


def check_linear(s, ctx):
    names = s["names"]
    n = len(names)
    qp = qp_with(names)
    given = _dtype_case(s["fmt"], M.lin_as(s["fmt"], s["lin"], n, names), s["dt"])
    e = LinearExpression(qp, given)
    coef = M.merge_lin(s["lin"])
    w = verify_linear(ctx, e, coef, names, s["x"], s["xf"], "linear")
    # what was given is copied, not shared
    if isinstance(given, np.ndarray):
        given[0] += 7
        verify_linear(ctx, e, coef, names, s["x"], s["xf"], "linear after the caller's array changed")
    elif s["fmt"] == "dok":
        given[0, 0] = given[0, 0] + 7
        verify_linear(ctx, e, coef, names, s["x"], s["xf"], "linear after the caller's matrix changed")
    a = e.to_array()
    a[...] = 99
    verify_linear(ctx, e, coef, names, s["x"], s["xf"], "linear after the returned array changed")
    for i, by_name, v in s["sets"]:
        e[names[i] if by_name else i] = v
        coef[i] = v
        w2 = verify_linear(ctx, e, coef, names, s["x"], s["xf"], "linear after setitem")
    e.coefficients = M.lin_as("name", s["lin"], n, names)
    coef = M.merge_lin(s["lin"])
    verify_linear(ctx, e, coef, names, s["x"], s["xf"], "linear after the coefficients setter")
    ctx.nontrivial(w != 0)
    ctx.label("fmt=" + s["fmt"], "x=" + s["xf"], "sets={}".format(len(s["sets"])))


@st.composite
def quad_case(draw):
    n = draw(st.integers(1, 5))
    return {
        "names": draw(G.names(n)),
        "quad": draw(G.quadratic(n, G.wide, max_size=9, repeat=True)),
        "fmt": draw(G.qfmts),
        "dt": draw(DT),
        "sets": draw(
            st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.booleans(), st.booleans(), G.wide), max_size=3)
        ),
        "x": draw(st.lists(G.wide, min_size=n, max_size=n)),
        "xf": draw(st.sampled_from(XF)),
    }


def verify_quad(ctx, e, coef, names, x, xf, tag):
    """coef: {(i<=j): coefficient of x_i x_j}"""
    n = len(names)
    want = float(sum(v * x[i] * x[j] for (i, j), v in coef.items()))
    ctx.close(e.evaluate(x_as(xf, x, names)), want, tag + ".evaluate", tol=1e-9)
    grad = [0.0] * n
    for (i, j), v in coef.items():
        grad[i] += v * x[j]
        grad[j] += v * x[i]
    ctx.all_close(e.evaluate_gradient(x_as(xf, x, names)), grad, tag + ".gradient", tol=1e-9)
    up = np.zeros((n, n))
    sy = np.zeros((n, n))
    for (i, j), v in coef.items():
        up[i, j] += v
        sy[i, j] += v / 2
        sy[j, i] += v / 2
    ctx.all_close(e.to_array().ravel(), up.ravel(), tag + ".to_array", tol=1e-12)
    ctx.all_close(e.to_array(symmetric=True).ravel(), sy.ravel(), tag + ".to_array(symmetric)", tol=1e-12)

    def dic(m, key):
        return {key(i, j): m[i, j] for i in range(n) for j in range(n) if m[i, j] != 0}

    for sym, m in ((False, up), (True, sy)):
        for use_name in (False, True):
            key = (lambda i, j: (names[i], names[j])) if use_name else (lambda i, j: (i, j))
            got = {k: float(v) for k, v in e.to_dict(symmetric=sym, use_name=use_name).items() if v != 0}
            want_d = dic(m, key)
            ctx.equal(set(got), set(want_d), tag + ".to_dict keys", sym=sym, use_name=use_name)
            for k in want_d:
                ctx.close(got[k], want_d[k], tag + ".to_dict", tol=1e-12, key=k)
    for i in range(n):
        for j in range(n):
            v = coef.get((min(i, j), max(i, j)), 0)
            ctx.close(e[i, j], v, tag + "[i,j]", tol=1e-12, at=(i, j))
            ctx.close(e[names[i], names[j]], v, tag + "[name,name]", tol=1e-12, at=(i, j))
            ctx.close(e[i, names[j]], v, tag + "[i,name]", tol=1e-12, at=(i, j))
    return want


def check_quad(s, ctx):
    names = s["names"]
    n = len(names)
    qp = qp_with(names)
    given = _dtype_case(s["fmt"], M.quad_as(s["fmt"], s["quad"], n, names), s["dt"])
    e = QuadraticExpression(qp, given)
    coef = M.merge_quad(s["quad"])
    w = verify_quad(ctx, e, coef, names, s["x"], s["xf"], "quadratic")
    if isinstance(given, np.ndarray):
        given[0, 0] += 7
        verify_quad(ctx, e, coef, names, s["x"], s["xf"], "quadratic after the caller's array changed")
    elif s["fmt"] == "dok":
        given[0, 0] = given[0, 0] + 7
        verify_quad(ctx, e, coef, names, s["x"], s["xf"], "quadratic after the caller's matrix changed")
    for i, j, bi, bj, v in s["sets"]:
        e[names[i] if bi else i, names[j] if bj else j] = v
        coef[(min(i, j), max(i, j))] = v
        verify_quad(ctx, e, coef, names, s["x"], s["xf"], "quadratic after setitem")
    e.coefficients = M.quad_as("index", s["quad"], n, names)
    verify_quad(ctx, e, M.merge_quad(s["quad"]), names, s["x"], s["xf"], "quadratic after the coefficients setter")
    ctx.nontrivial(w != 0)
    ctx.label("fmt=" + s["fmt"], "x=" + s["xf"], "offdiag" if any(i != j for i, j, _ in s["quad"]) else "diag-only")


@st.composite
def prog_case(draw):
    p = draw(G.problem(value=G.wide, max_n=5, max_lcs=2, max_qcs=2))
    n = len(p["vars"])
    return {
        "p": p,
        "lf": draw(G.lfmts),
        "qf": draw(G.qfmts),
        "xs": draw(st.lists(st.lists(G.dyadic, min_size=n, max_size=n), min_size=1, max_size=3)),
        "xf": draw(st.sampled_from(XF)),
        "edit": draw(st.sampled_from(["none", "setters", "items"])),
        "e_const": draw(G.dyadic),
        "e_lin": draw(G.linear(n, G.dyadic)),
        "e_quad": draw(G.quadratic(n, G.dyadic)),
        "e_rhs": draw(G.dyadic),
    }


def verify_program(ctx, qp, p, xs, xf):
    names = [v["n"] for v in p["vars"]]
    n = len(names)
    for x in xs:
        xx = x_as(xf, x, names)
        want = float(M.objective(p, x))
        ctx.close(qp.objective.evaluate(xx), want, "objective.evaluate", tol=1e-9)
        grad = [0.0] * n
        for i, v in p["lin"]:
            grad[i] += v
        for i, j, v in p["quad"]:
            grad[i] += v * x[j]
            grad[j] += v * x[i]
        ctx.all_close(qp.objective.evaluate_gradient(xx), grad, "objective.evaluate_gradient", tol=1e-9)
        for c, sc in zip(qp.linear_constraints, p["lcs"]):
            ctx.close(c.evaluate(xx), float(M.ev_lin(sc["lin"], x)), "linear constraint lhs", tol=1e-9)
        for c, sc in zip(qp.quadratic_constraints, p["qcs"]):
            ctx.close(
                c.evaluate(xx), float(M.ev_lin(sc["lin"], x) + M.ev_quad(sc["quad"], x)), "quadratic constraint lhs", tol=1e-9
            )
        ctx.nontrivial(want != p["const"])
    ctx.equal(M.read(qp), M.normal(p), "content of the program")


def check_program(s, ctx):
    p = s["p"]
    names = [v["n"] for v in p["vars"]]
    n = len(names)
    qp = M.build(p, s["lf"], s["qf"])
    verify_program(ctx, qp, p, s["xs"], s["xf"])
    if s["edit"] == "setters":
        qp.objective.constant = s["e_const"]
        qp.objective.linear = M.lin_as(s["lf"], s["e_lin"], n, names)
        qp.objective.quadratic = M.quad_as(s["qf"], s["e_quad"], n, names)
        qp.objective.sense = QuadraticObjective.Sense.MAXIMIZE if p["sense"] == "min" else QuadraticObjective.Sense.MINIMIZE
        p = dict(p, const=s["e_const"], lin=s["e_lin"], quad=s["e_quad"], sense="max" if p["sense"] == "min" else "min")
        if p["lcs"]:
            c = qp.linear_constraints[-1]
            c.linear = M.lin_as(s["lf"], s["e_lin"], n, names)
            c.rhs = s["e_rhs"]
            p = dict(p, lcs=p["lcs"][:-1] + [dict(p["lcs"][-1], lin=s["e_lin"], r=s["e_rhs"])])
        if p["qcs"]:
            c = qp.quadratic_constraints[0]
            c.linear = M.lin_as(s["lf"], s["e_lin"], n, names)
            c.quadratic = M.quad_as(s["qf"], s["e_quad"], n, names)
            c.rhs = s["e_rhs"]
            p = dict(p, qcs=[dict(p["qcs"][0], lin=s["e_lin"], quad=s["e_quad"], r=s["e_rhs"])] + p["qcs"][1:])
        verify_program(ctx, qp, p, s["xs"], s["xf"])
    elif s["edit"] == "items":
        lin = M.merge_lin(p["lin"])
        quad = M.merge_quad(p["quad"])
        for i, v in s["e_lin"]:
            qp.objective.linear[names[i]] = v
            lin[i] = v
        for i, j, v in s["e_quad"]:
            qp.objective.quadratic[i, j] = v
            quad[(min(i, j), max(i, j))] = v
        p = dict(p, lin=[[i, v] for i, v in lin.items()], quad=[[i, j, v] for (i, j), v in quad.items()])
        if p["lcs"]:
            cl = M.merge_lin(p["lcs"][0]["lin"])
            for i, v in s["e_lin"]:
                qp.linear_constraints[0].linear[i] = v
                cl[i] = v
            p = dict(p, lcs=[dict(p["lcs"][0], lin=[[i, v] for i, v in cl.items()])] + p["lcs"][1:])
        verify_program(ctx, qp, p, s["xs"], s["xf"])
    ctx.label("edit=" + s["edit"], "x=" + s["xf"], p["sense"])


@st.composite
def large_case(draw):
    return {"b": draw(G.large(max_n=30, max_lcs=4, max_qcs=3, inf=True)), "lf": draw(G.lfmts), "qf": draw(G.qfmts),
            "xf": draw(st.sampled_from(XF)), "seed": draw(st.integers(0, 10 ** 6)), "edits": draw(st.integers(0, 6))}


def check_large(s, ctx):
    """many variables, coefficients of very different size"""
    import random

    p = G.expand(s["b"])
    n = len(p["vars"])
    names = [v["n"] for v in p["vars"]]
    qp = M.build(p, s["lf"], s["qf"])
    rnd = random.Random(s["seed"])
    lin, quad = M.merge_lin(p["lin"]), M.merge_quad(p["quad"])
    for rep in range(2):
        p = dict(p, lin=[[i, v] for i, v in lin.items()], quad=[[i, j, v] for (i, j), v in quad.items()])
        ctx.equal(M.read(qp), M.normal(p), "content of the program")
        for x in G.some_points(p, s["seed"], 3):
            xx = x_as(s["xf"], x, names)

            def term(e, lin, quad, const, what):
                t = [const] + [v * x[i] for i, v in lin] + [v * x[i] * x[j] for i, j, v in quad]
                tol = 1e-13 * sum(abs(a) for a in t) + 1e-300
                ctx.check(abs(e - sum(t)) <= tol, what, got=e, want=sum(t))

            term(qp.objective.evaluate(xx), p["lin"], p["quad"], p["const"], "objective.evaluate")
            for c, sc in zip(qp.linear_constraints + qp.quadratic_constraints, p["lcs"] + p["qcs"]):
                term(c.evaluate(xx), sc["lin"], sc.get("quad", []), 0, "constraint.evaluate")
            g, sz = np.zeros(n), np.zeros(n)
            for i, v in p["lin"]:
                g[i] += v
                sz[i] += abs(v)
            for i, j, v in p["quad"]:
                for a, b in ((i, j), (j, i)):
                    g[a] += v * x[b]
                    sz[a] += abs(v * x[b])
            got = np.asarray(qp.objective.evaluate_gradient(xx), dtype=float)
            ctx.check(got.shape == (n,) and bool(np.all(np.abs(got - g) <= 1e-13 * sz + 1e-300)), "objective.evaluate_gradient", got=got.tolist(), want=g.tolist())
        a = qp.objective.quadratic.to_array(symmetric=True)
        b = qp.objective.quadratic.to_array()
        up = np.zeros((n, n))
        for (i, j), v in quad.items():
            up[i, j] = v
        ctx.check(bool(np.array_equal(b, up)) and bool(np.array_equal(a, (up + up.T) / 2)), "quadratic views", upper=b.tolist(), symmetric=a.tolist())
        for i, v in qp.objective.linear.to_dict(use_name=True).items():
            ctx.equal(float(v), float(lin.get(names.index(i), 0)), "linear view by name")
        if rep or not s["edits"]:
            break
        for _ in range(s["edits"]):
            i, j = rnd.randrange(n), rnd.randrange(n)
            v = G.number(rnd, s["b"]["kind"], False)
            if rnd.random() < 0.5:
                qp.objective.linear[rnd.choice([i, names[i]])] = v
                lin[i] = v
            else:
                qp.objective.quadratic[rnd.choice([i, names[i]]), rnd.choice([j, names[j]])] = v
                quad[min(i, j), max(i, j)] = v
    ctx.nontrivial(n >= 7 and len(p["quad"]) > 0)
    ctx.label("n={}".format(n // 5 * 5), s["b"]["kind"], "fmt=" + s["qf"])


SUBCHECKS = [
    Sub("large", large_case(), check_large, 400, 6000),
    Sub("linear", lin_case(), check_linear, 2400, 40000,
        explicit=[{"names": ["x", "y"], "lin": [[0, 1], [1, 2]], "fmt": "list", "dt": "int64",
                   "sets": [[0, True, 0.5]], "x": [2, 3], "xf": "list"}]),
    Sub("quadratic", quad_case(), check_quad, 2400, 40000,
        explicit=[{"names": ["x", "y"], "quad": [[0, 1, 100], [1, 0, 100]], "fmt": "array", "dt": "uint8",
                   "sets": [[0, 1, True, False, 0.5]], "x": [2, 3], "xf": "list"}]),
    Sub("program", prog_case(), check_program, 2000, 30000),
]
