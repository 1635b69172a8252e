"""C05: exchanging a program with docplex and LP files keeps its meaning."""
import os
import tempfile

import numpy as np
from docplex.mp.model import Model
from hypothesis import strategies as st

from qiskit_optimization import QuadraticProgram, QiskitOptimizationError

from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C05"
RULE = (
    "Cases are programs with all variable types, finite, negative, fixed and infinite bounds, both senses, constants, "
    "linear and quadratic constraints: (a) exported to docplex and read back, (b) the docplex export interpreted "
    "term by term, (c) docplex models with terms, squares and constants on both sides of constraints imported and "
    "compared point-wise, (d) written to and read from LP files, (e) models with unsupported elements. Non-trivial: "
    "the program has a non-constant objective and a constraint (a-d); every case of (e)."
)
SAFE = ["x", "y", "z", "x0", "x1", "x2", "a", "b1", "w_1", "X", "s_t", "u3", "v10"]


def is_const(c):
    return not any(v for v in M.merge_lin(c["lin"]).values()) and not any(
        v for v in M.merge_quad(c.get("quad", [])).values()
    )


def is_lin(c):
    return not any(v for v in M.merge_quad(c.get("quad", [])).values())


@st.composite
def prog(draw, pool=SAFE, max_n=5):
    p = draw(G.problem(max_n=max_n, max_lcs=3, max_qcs=2, pool=pool))
    for v in p["vars"]:
        if v["t"] == "B" and draw(st.integers(0, 3)) == 0:
            v["l"], v["u"] = draw(st.sampled_from([(0, 0), (1, 1), (0, 1)]))
        if v["t"] == "I" and draw(st.integers(0, 5)) == 0:
            v["u"] = G.INF
    # distinct names over both kinds of constraints
    for k, c in enumerate(p["lcs"] + p["qcs"]):
        c["n"] = "{}{}".format(["lc", "c", "k_"][(len(p["lcs"]) + k) % 3], k)
    return p


def trivial(c):
    return is_const(c) and M.holds(0, c["s"], c["r"])


def untrivial(p):
    """without the constraints that mention no variable and always hold: an export may keep or drop them"""
    return dict(p, lcs=[c for c in p["lcs"] if not trivial(c)], qcs=[c for c in p["qcs"] if not trivial(c)])


def expected(p):
    """a quadratic constraint without quadratic terms becomes linear; one that can never hold stays"""
    q = untrivial(p)
    deg = [{"n": c["n"], "lin": c["lin"], "s": c["s"], "r": c["r"]} for c in q["qcs"] if is_lin(c)]
    q["qcs"] = [c for c in q["qcs"] if not is_lin(c)]
    q["lcs"] = q["lcs"] + deg
    return q


def interesting(p):
    return bool((p["lin"] or p["quad"]) and (p["lcs"] or p["qcs"]))


def check_roundtrip(s, ctx):
    p = s["p"]
    qp = M.build(p, s["lf"], s["qf"])
    if s["np"]:
        for c in qp.linear_constraints + qp.quadratic_constraints:
            c.rhs = np.float64(c.rhs)
    snap = M.snapshot(qp)
    mdl = qp.to_docplex()
    ctx.equal(M.snapshot(qp), snap, "the program must not change")
    back = QuadraticProgram("old")
    back.binary_var("stale")
    back.linear_constraint({"stale": 1}, "==", 1, "stale")
    back.from_docplex(mdl)
    ctx.equal(untrivial(M.read(back)), M.normal(expected(p)), "to_docplex then from_docplex")
    ctx.nontrivial(interesting(p))
    ctx.label(p["sense"], *sorted({v["t"] for v in p["vars"]}))


def dpx_terms(expr):
    """{(i,): c, (i, j): c, (): c} of a docplex expression, by name"""
    out = {}

    def add(k, v):
        k = tuple(sorted(k))
        out[k] = out.get(k, 0) + v

    if isinstance(expr, (int, float)):
        return {(): expr}
    if hasattr(expr, "iter_quad_triplets"):
        for a, b, c in expr.iter_quad_triplets():
            add((a.name, b.name), c)
        lin = expr.get_linear_part()
        add((), lin.get_constant())
        for v, c in lin.iter_terms():
            add((v.name,), c)
    else:
        add((), expr.get_constant())
        for v, c in expr.iter_terms():
            add((v.name,), c)
    return {k: v for k, v in out.items() if v != 0}


def spec_terms(p, lin, quad, const):
    out = {(): const}
    for i, v in lin:
        k = (p["vars"][i]["n"],)
        out[k] = out.get(k, 0) + v
    for i, j, v in quad:
        k = tuple(sorted((p["vars"][i]["n"], p["vars"][j]["n"])))
        out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v != 0}


def check_export(s, ctx):
    p = s["p"]
    mdl = M.build(p, s["lf"], s["qf"]).to_docplex()
    ctx.equal(mdl.name, p["name"] or mdl.name, "model name")
    got = [(v.name, v.vartype.short_name, float(v.lb), float(v.ub)) for v in mdl.iter_variables()]
    want = [(v["n"], {"B": "binary", "I": "integer", "C": "continuous"}[v["t"]], float(v["l"]), float(v["u"])) for v in p["vars"]]
    ctx.equal(got, want, "exported variables")
    ctx.equal(mdl.objective_sense.is_minimize(), p["sense"] == "min", "exported sense")
    ctx.equal(dpx_terms(mdl.objective_expr), spec_terms(p, p["lin"], p["quad"], p["const"]), "exported objective")
    q = expected(p)
    want = {}
    for c in q["lcs"] + q["qcs"]:
        want[c["n"]] = (spec_terms(p, c["lin"], c.get("quad", []), -c["r"]), c["s"])
    got = {}
    for c in mdl.iter_constraints():
        t = dpx_terms(c.get_left_expr())
        for k, v in dpx_terms(c.get_right_expr()).items():
            t[k] = t.get(k, 0) - v
        sense = {"EQ": "==", "LE": "<=", "GE": ">="}[c.sense.name]
        t = {k: v for k, v in t.items() if v != 0}
        if any(t) or not M.holds(t.get((), 0), sense, 0):
            got[c.name] = (t, sense)
    ctx.equal(got, want, "exported constraints")
    ctx.nontrivial(interesting(p))


# -- docplex models with general shape ---------------------------------------------------------------------------

side = st.fixed_dictionaries(
    {
        "c": st.one_of(st.just(0), G.dyadic),
        "lin": st.lists(st.tuples(st.integers(0, 3), G.nz_dyadic).map(list), max_size=3),
        "quad": st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), G.nz_dyadic).map(list), max_size=3),
        "bare": st.integers(0, 7),
    }
)


@st.composite
def model_case(draw):
    vs = draw(G.variables(min_n=4, max_n=4, pool=SAFE))
    for v in vs:
        if v["t"] == "B" and draw(st.integers(0, 3)) == 0:
            v["l"], v["u"] = draw(st.sampled_from([(0, 0), (1, 1)]))
    cons = draw(
        st.lists(st.fixed_dictionaries({"l": side, "r": side, "s": st.sampled_from(["<=", ">=", "=="]), "q": st.booleans(), "named": st.booleans()}), max_size=4)
    )
    return {
        "vars": vs,
        "obj": draw(side),
        "objq": draw(st.booleans()),
        "sense": draw(st.sampled_from(["min", "max"])),
        "cons": cons,
        "unnamed": draw(st.booleans()),
        "pts": draw(st.lists(st.lists(st.integers(-3, 3), min_size=4, max_size=4), min_size=3, max_size=5)),
    }


def expr(mdl, X, sd, quad):
    """(docplex expression, python function)"""
    if sd["bare"] in (0, 1, 2, 3):
        i = sd["bare"]
        return X[i], (lambda x: x[i])
    e = 0
    for i, v in sd["lin"]:
        e = e + v * X[i]
    q = sd["quad"] if quad else []
    for i, j, v in q:
        e = e + v * X[i] * X[j]
    e = e + sd["c"]
    return e, (lambda x: sd["c"] + M.ev_lin(sd["lin"], x) + M.ev_quad(q, x))


def check_import(s, ctx):
    mdl = Model("imported")
    X = []
    for i, v in enumerate(s["vars"]):
        nm = None if s["unnamed"] and i == 3 else ("n_" + v["n"] if s["unnamed"] else v["n"])
        if v["t"] == "B":
            x = mdl.binary_var(name=nm)
            x.lb, x.ub = v["l"], v["u"]
        elif v["t"] == "I":
            x = mdl.integer_var(lb=v["l"], ub=v["u"], name=nm)
        else:
            x = mdl.continuous_var(lb=v["l"], ub=v["u"], name=nm)
        X.append(x)
    oe, of = expr(mdl, X, s["obj"], s["objq"])
    (mdl.minimize if s["sense"] == "min" else mdl.maximize)(oe)
    cons = []
    for k, c in enumerate(s["cons"]):
        le, lf = expr(mdl, X, c["l"], c["q"])
        re_, rf = expr(mdl, X, c["r"], c["q"])
        if isinstance(le, (int, float)) and isinstance(re_, (int, float)):
            continue
        ct = le <= re_ if c["s"] == "<=" else (le >= re_ if c["s"] == ">=" else le == re_)
        if isinstance(ct, bool):
            continue
        try:
            ct = mdl.add_constraint(ct, ctname="ct_{}".format(k) if c["named"] else None)
        except Exception:  # noqa  docplex itself refuses (e.g. trivially infeasible)
            ctx.discard()
        if ct is None or not any(c2 is ct for c2 in mdl.iter_constraints()):
            continue  # trivially true: docplex drops it
        cons.append((ct.name, lf, rf, c["s"], "ct_{}".format(k) if c["named"] else None))
    qp = QuadraticProgram()
    qp.from_docplex(mdl)
    ctx.equal(qp.name, "imported", "name")
    ctx.equal([M.VT_INV[v.vartype] for v in qp.variables], [v["t"] for v in s["vars"]], "types")
    ctx.equal([(float(v.lowerbound), float(v.upperbound)) for v in qp.variables], [(float(v["l"]), float(v["u"])) for v in s["vars"]], "bounds")
    for x, v in zip(X, qp.variables):
        if x.name is not None:
            ctx.equal(v.name, x.name, "variable name")
    ctx.equal(qp.objective.sense.name, {"min": "MINIMIZE", "max": "MAXIMIZE"}[s["sense"]], "sense")
    names = {c.name for c in qp.linear_constraints + qp.quadratic_constraints}
    for _, _, _, _, nm in cons:
        ctx.check(nm is None or nm in names, "named constraint is kept", name=nm)
    # docplex may drop trivially true constraints, so compare point-wise
    for x in s["pts"]:
        ctx.close(qp.objective.evaluate(x), of(x), "imported objective", x=x)
        want = all(M.holds(lf(x), sn, rf(x)) for _, lf, rf, sn, _ in cons) and M.bounds_ok(s, x)
        ctx.equal(bool(qp.is_feasible(x)), want, "imported feasibility", x=x)
    ctx.equal(qp.get_num_linear_constraints() + qp.get_num_quadratic_constraints(), mdl.number_of_constraints, "number of constraints")
    for nm, lf, rf, sn, given in cons:
        if given is None:
            continue
        c = qp.get_linear_constraint(nm) if nm in qp.linear_constraints_index else qp.get_quadratic_constraint(nm)
        # Python reflects "3 <= x" into "x >= 3": same constraint with both sides exchanged
        flip = {"<=": ">=", ">=": "<=", "==": "=="}
        got = M.SENSE_INV[c.sense]
        ctx.check(got in (sn, flip[sn]), "constraint sense", name=nm, got=got, want=sn)
        d = [(float(c.evaluate(x) - c.rhs), float(lf(x) - rf(x))) for x in s["pts"]]
        same = all(abs(g - w) < 1e-9 for g, w in d)
        mirrored = all(abs(g + w) < 1e-9 for g, w in d)
        ctx.check((got == sn and same) or (got == flip[sn] and mirrored), "imported constraint", name=nm, sense=got, want=sn, values=d)
    ctx.nontrivial(bool(cons))
    ctx.label("constraints={}".format(len(cons)), s["sense"], "quadratic" if qp.get_num_quadratic_constraints() else "linear")


# -- LP files ----------------------------------------------------------------------------------------------------


@st.composite
def lp_case(draw):
    p = draw(prog(max_n=4))
    # an LP file only mentions variables that occur somewhere: make every variable occur in the objective
    used = {i for i, v in p["lin"]}
    lin = [[i, v if v else 1] for i, v in p["lin"]]
    for i in range(len(p["vars"])):
        if i not in used:
            lin.append([i, draw(G.nz_dyadic)])
    p["lin"] = lin
    return {"p": p, "suffix": draw(st.sampled_from(["a.lp", "model", "b.c.lp"]))}


def check_lp(s, ctx):
    p = s["p"]
    qp = M.build(p)
    text = qp.export_as_lp_string()
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, s["suffix"])
        qp.write_to_lp_file(path)
        files = os.listdir(d)
        ctx.equal(len(files), 1, "one file is written")
        ctx.equal(files[0], s["suffix"] if s["suffix"].endswith(".lp") else s["suffix"] + ".lp", "file name")
        path = os.path.join(d, files[0])
        with open(path) as fh:
            ctx.equal(fh.read().split(), text.split(), "file and string agree")
        back = QuadraticProgram("old")
        back.integer_var(0, 3, "stale")
        back.read_from_lp_file(path)
    want = M.normal(expected(p))
    got = untrivial(M.read(back))
    if p["name"]:
        ctx.equal(got["name"], want["name"], "problem name")
    # the order of variables in a file follows their first use
    gi = {v["n"]: v for v in got["vars"]}
    wi = {v["n"]: v for v in want["vars"]}
    ctx.equal(gi, wi, "variables")
    gn = [v["n"] for v in got["vars"]]
    wn = [v["n"] for v in want["vars"]]
    ctx.equal(got["sense"], want["sense"], "sense")
    ctx.close(got["const"], want["const"], "constant")

    def byname(names, c):
        return (
            sorted((names[i], v) for i, v in c["lin"]),
            sorted((tuple(sorted((names[i], names[j]))), v) for i, j, v in c.get("quad", [])),
            c.get("s"),
            c.get("r"),
        )

    ctx.equal(byname(gn, got)[:2], byname(wn, want)[:2], "objective")
    for key in ("lcs", "qcs"):
        ctx.equal({c["n"]: byname(gn, c) for c in got[key]}, {c["n"]: byname(wn, c) for c in want[key]}, key)
    ctx.nontrivial(interesting(p))
    ctx.label(p["sense"], *sorted({v["t"] for v in p["vars"]}))


# -- unsupported elements ----------------------------------------------------------------------------------------

KINDS = ["indicator", "if_then", "not_equal", "range", "sos1", "sos2", "abs", "max", "semicont", "semiint", "logical", "lex", "lazy", "equivalence"]


def check_unsupported(s, ctx):
    mdl = Model("m")
    b = mdl.binary_var(name="b")
    x = mdl.integer_var(-2, 5, name="x")
    y = mdl.continuous_var(-1, 9, name="y")
    mdl.minimize(x + 2 * y)
    if s["before"]:
        mdl.add_constraint(x + y <= 4, ctname="ok")
    k = s["kind"]
    if k == "indicator":
        mdl.add_indicator(b, x >= s["r"], s["v"])
    elif k == "if_then":
        mdl.add_if_then(b == 1, x == s["r"])
    elif k == "not_equal":
        mdl.add_constraint(b + x != s["r"])
    elif k == "range":
        mdl.add_range(s["r"], x + y, s["r"] + 2)
    elif k == "sos1":
        mdl.add_sos1([x, y, b])
    elif k == "sos2":
        mdl.add_sos2([x, y, b])
    elif k == "abs":
        mdl.add_constraint(mdl.abs(x) <= 3)
    elif k == "max":
        mdl.minimize(mdl.max(x, y))
    elif k == "semicont":
        mdl.semicontinuous_var(lb=1, ub=4, name="s")
    elif k == "semiint":
        mdl.semiinteger_var(lb=1, ub=4, name="s")
    elif k == "logical":
        mdl.add_constraint(mdl.logical_or(x >= 2, b == 1) == 1)
    elif k == "lex":
        mdl.minimize_static_lex([x + y, b])
    elif k == "lazy":
        mdl.add_lazy_constraint(x + y <= 3)
    elif k == "equivalence":
        mdl.add_equivalence(b, x >= 2)
    if s["after"]:
        mdl.add_constraint(x - y >= -4, ctname="ok2")
    qp = QuadraticProgram()
    ctx.raises(Exception, lambda: qp.from_docplex(mdl), "unsupported element must be rejected", kind=k)
    ctx.nontrivial()
    ctx.label(k)


# -- many variables, coefficients of very different size -----------------------------------------------------------


@st.composite
def large_case(draw):
    return {"b": draw(G.large(max_n=40, max_lcs=12, max_qcs=4, inf=True, range=1000)), "lf": draw(G.lfmts), "qf": draw(G.qfmts), "lp": draw(st.booleans())}


def check_large(s, ctx):
    p = G.expand(s["b"])
    n = len(p["vars"])
    qp = M.build(p, s["lf"], s["qf"])
    want = M.normal(expected(p))
    if not s["lp"]:
        mdl = qp.to_docplex()
        back = QuadraticProgram()
        back.from_docplex(mdl)
        ctx.equal(untrivial(M.read(back)), want, "to_docplex then from_docplex")
    else:
        # every variable occurs in the file, twelve decimals are written
        have = {i for i, _ in p["lin"]}
        p["lin"] += [[i, 1.0] for i in range(n) if i not in have]
        want = M.normal(expected(p))
        qp = M.build(p, s["lf"], s["qf"])
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "f.lp")
            qp.write_to_lp_file(path)
            back = QuadraticProgram()
            back.read_from_lp_file(path)
        got = untrivial(M.read(back))
        gn = [v["n"] for v in got["vars"]]
        wn = [v["n"] for v in want["vars"]]

        def near(g, w, what, **kw):
            ctx.check(set(g) == set(w), what + ": terms", got_terms=sorted(map(str, set(g) - set(w))), want_terms=sorted(map(str, set(w) - set(g))), **kw)
            for k in w:
                ctx.check(abs(g[k] - w[k]) <= 2e-12 + 1e-12 * abs(w[k]), what, at=k, got_value=g[k], want_value=w[k], **kw)

        def terms(names, c):
            t = {(names[i],): v for i, v in c["lin"]}
            for i, j, v in c.get("quad", []):
                t[tuple(sorted((names[i], names[j])))if i != j else (names[i], names[i])] = v
            t[()] = c.get("r", c.get("const"))
            return t

        ctx.equal(sorted((v["n"], v["t"]) for v in got["vars"]), sorted((v["n"], v["t"]) for v in want["vars"]), "variables")
        wb = {v["n"]: v for v in want["vars"]}
        for v in got["vars"]:
            near({"l": v["l"], "u": v["u"]}, {"l": wb[v["n"]]["l"], "u": wb[v["n"]]["u"]}, "bounds", name=v["n"])
        ctx.equal(got["sense"], want["sense"], "sense")
        near(terms(gn, got), terms(wn, want), "objective")
        for key in ("lcs", "qcs"):
            gc, wc = {c["n"]: c for c in got[key]}, {c["n"]: c for c in want[key]}
            ctx.equal({k: c["s"] for k, c in gc.items()}, {k: c["s"] for k, c in wc.items()}, key)
            for k in wc:
                near(terms(gn, gc[k]), terms(wn, wc[k]), key, name=k)
    ctx.nontrivial(n >= 7 and interesting(p))
    ctx.label(s["b"]["kind"], "lp" if s["lp"] else "docplex", "n={}".format(n // 10 * 10))


pcase = st.fixed_dictionaries({"p": prog(), "lf": G.lfmts, "qf": G.qfmts, "np": st.booleans()})
ucase = st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "before": st.booleans(), "after": st.booleans(),
                               "r": st.integers(-2, 3), "v": st.sampled_from([0, 1])})

SUBCHECKS = [
    Sub("large", large_case(), check_large, 400, 5000),
    Sub("roundtrip", pcase, check_roundtrip, 1600, 30000),
    Sub("export", pcase, check_export, 1200, 20000),
    Sub("import", model_case(), check_import, 2000, 40000),
    Sub("lpfile", lp_case(), check_lp, 1200, 16000),
    Sub("unsupported", ucase, check_unsupported, 160, 800,
        explicit=[{"kind": k, "before": True, "after": False, "r": 1, "v": 1} for k in KINDS]),
]
