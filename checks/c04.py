"""C04: substituting variables preserves the meaning of the program."""
from hypothesis import strategies as st

from qiskit_optimization import QuadraticProgram, QiskitOptimizationError

from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C04"
RULE = (
    "A case is a program (all variable types and constraint kinds), constants for some variables (in and out of "
    "range), weighted replacements for others (weights +-1, 2, 4, 0.5, chains and repeats to one target), keys by name or "
    "index, and points of the remaining variables. Non-trivial: at least one variable is substituted and it occurs "
    "in the objective or in a constraint. A second subcheck generates invalid substitutions."
)

W = [1, -1, 2, -2, 0.5, -0.5, 4]


@st.composite
def case(draw):
    p = draw(G.problem(max_n=5, min_n=2, max_lcs=3, max_qcs=2, value=G.dyadic))
    G.blank_rows(draw, p, 15)
    n = len(p["vars"])
    roles = draw(st.lists(st.sampled_from("kkcvv"), min_size=n, max_size=n))
    if "k" not in roles:
        roles = [("k" if r == "v" else r) for r in roles]
    kept = [i for i in range(n) if roles[i] == "k"]
    consts, reps = [], []
    for i in range(n):
        v = p["vars"][i]
        if roles[i] == "c":
            lo, hi = int(max(v["l"], -9)), int(min(v["u"], 9))
            val = draw(st.integers(min(lo, hi), max(lo, hi)))
            if draw(st.integers(0, 5)) == 0:
                val = draw(st.integers(-9, 9))
            consts.append([i, val, draw(st.booleans())])
        elif roles[i] == "v" and kept:
            reps.append([i, draw(st.sampled_from(kept)), draw(st.sampled_from(W)), draw(st.booleans())])
    # constraints whose terms cancel under the substitution
    if draw(st.integers(0, 3)) == 0:
        kind = draw(st.integers(0, 3))
        name, sense, r = "cancel", draw(st.sampled_from(["<=", ">=", "=="])), draw(st.sampled_from([0, 0, 1, -1]))
        a = draw(st.sampled_from([1, -1, 1.25, 2]))
        if kind == 0 and reps:
            i, j, w, _ = draw(st.sampled_from(reps))
            p["lcs"].append({"n": name, "lin": [[i, a], [j, -a * w]], "s": sense, "r": r})
        elif kind == 1 and reps:
            i, j, w, _ = draw(st.sampled_from(reps))
            p["qcs"].append({"n": name, "lin": [], "quad": [[i, j, a], [j, j, -a * w]], "s": sense, "r": r})
        elif kind >= 2 and consts:
            c = draw(st.sampled_from(consts))
            other = draw(st.sampled_from([i for i in range(n) if roles[i] != "c"] or [c[0]]))
            if other != c[0]:
                quad = [[c[0], other, a]]
                if kind == 3:
                    quad.append([other, other, 1])
                p["qcs"].append({"n": name, "lin": [[other, -a * c[1]]], "quad": quad, "s": sense, "r": r})
    # names that meet when quadratic constraints become linear ones, or that look like the names given then
    if p["qcs"] and draw(st.integers(0, 2)) == 0:
        for cs in (p["lcs"], p["qcs"]):
            for c, nm in zip(cs, draw(st.permutations(["c", "_c", "__c", "_", "k"]))):
                c["n"] = nm
    order = draw(st.permutations(list(range(len(reps)))))
    pts = []
    for _ in range(4):
        pts.append([draw(st.integers(-20, 20)) / 4 if draw(st.booleans()) else draw(st.integers(-3, 3)) for _ in kept])
    return {"p": p, "consts": consts, "reps": [reps[k] for k in order], "pts": pts}


def merged(coefs):
    return {k: v for k, v in coefs.items() if v != 0}


def check(s, ctx):
    p = s["p"]
    qp = M.build(p)
    snap = M.snapshot(qp)
    names = [v["n"] for v in p["vars"]]
    n = len(names)
    key = lambda i, by: names[i] if by else i  # noqa
    cd = {key(i, by): v for i, v, by in s["consts"]}
    vd = {key(i, by): (key(j, not by), w) for i, j, w, by in s["reps"]}
    dst = qp.substitute_variables(cd if cd or not vd else None, vd if vd else None)
    ctx.equal(M.snapshot(qp), snap, "the source program must not change")
    ctx.check(dst is not qp, "a new program is returned")

    sub = {i: ("c", v) for i, v, _ in s["consts"]}
    sub.update({i: ("v", j, w) for i, j, w, _ in s["reps"]})
    kept = [i for i in range(n) if i not in sub]
    pos = {i: k for k, i in enumerate(kept)}

    ctx.equal(dst.name, p["name"], "name is kept")
    ctx.equal([v.name for v in dst.variables], [names[i] for i in kept], "remaining variables")
    ctx.equal([M.VT_INV[v.vartype] for v in dst.variables], [p["vars"][i]["t"] for i in kept], "remaining types")
    ctx.equal(dict(dst.variables_index), {names[i]: k for k, i in enumerate(kept)}, "variables_index")

    # expected bounds and feasibility of the substitution
    lb = {i: p["vars"][i]["l"] for i in kept}
    ub = {i: p["vars"][i]["u"] for i in kept}
    infeasible = False
    for i, r in sub.items():
        l, u = p["vars"][i]["l"], p["vars"][i]["u"]
        if r[0] == "c":
            if not l <= r[1] <= u:
                infeasible = True
        else:
            _, j, w = r
            sl = l / w if abs(l) < 1e19 else l * (1 if w > 0 else -1)
            su = u / w if abs(u) < 1e19 else u * (1 if w > 0 else -1)
            if w < 0:
                sl, su = su, sl
            lb[j] = max(lb[j], sl)
            ub[j] = min(ub[j], su)
    empty = any(lb[j] > ub[j] for j in kept)
    infeasible |= empty

    def subst(lin, quad):
        c, l, q = 0, {}, {}
        for i, v in M.merge_lin(lin).items():
            if i not in sub:
                l[i] = l.get(i, 0) + v
            elif sub[i][0] == "c":
                c += v * sub[i][1]
            else:
                l[sub[i][1]] = l.get(sub[i][1], 0) + v * sub[i][2]
        for (i, j), v in M.merge_quad(quad).items():
            vs, f = [], v
            for t in (i, j):
                if t not in sub:
                    vs.append(t)
                elif sub[t][0] == "c":
                    f *= sub[t][1]
                else:
                    vs.append(sub[t][1])
                    f *= sub[t][2]
            if len(vs) == 2:
                k = (min(vs), max(vs))
                q[k] = q.get(k, 0) + f
            elif len(vs) == 1:
                l[vs[0]] = l.get(vs[0], 0) + f
            else:
                c += f
        return c, merged(l), merged(q)

    exp_l, exp_q, exp_deg = [], [], []
    for c in p["lcs"]:
        k, l, _ = subst(c["lin"], [])
        if l:
            exp_l.append((c["n"], l, c["s"], c["r"] - k))
        elif not M.holds(k, c["s"], c["r"]):
            infeasible = True
    for c in p["qcs"]:
        k, l, q = subst(c["lin"], c["quad"])
        if q:
            exp_q.append((c["n"], l, q, c["s"], c["r"] - k))
        elif l:
            exp_deg.append((c["n"], l, c["s"], c["r"] - k))
        elif not M.holds(k, c["s"], c["r"]):
            infeasible = True

    ctx.equal(dst.status.name, "INFEASIBLE" if infeasible else "VALID", "status")
    if not empty:
        for j in kept:
            v = dst.get_variable(names[j])
            ctx.close(v.lowerbound, lb[j], "lower bound", var=names[j])
            ctx.close(v.upperbound, ub[j], "upper bound", var=names[j])

    got = M.read(dst)
    c0, l0, q0 = subst(p["lin"], p["quad"])
    ctx.equal(got["sense"], p["sense"], "sense")
    ctx.close(got["const"], c0 + p["const"], "objective constant")
    ctx.equal({kept[i]: v for i, v in got["lin"]}, l0, "objective linear part")
    ctx.equal({tuple(sorted((kept[i], kept[j]))): v for i, j, v in got["quad"]}, q0, "objective quadratic part")
    gl = {c["n"]: c for c in got["lcs"]}
    gq = {c["n"]: c for c in got["qcs"]}
    ctx.equal(len(gl), len(got["lcs"]), "linear constraint names are unique")
    ctx.equal(len(gl), len(exp_l) + len(exp_deg), "number of linear constraints")
    ctx.equal(len(gq), len(exp_q), "number of quadratic constraints")

    def lin_of(c):
        return {kept[i]: v for i, v in c["lin"]}

    for nm, l, sn, r in exp_l:
        ctx.check(nm in gl, "linear constraint kept under its name", name=nm)
        c = gl.pop(nm)
        ctx.equal((lin_of(c), c["s"], c["r"]), (l, sn, float(r)), "linear constraint", name=nm)
    rest = [(lin_of(c), c["s"], c["r"]) for c in gl.values()]
    for nm, l, sn, r in exp_deg:
        want = (l, sn, float(r))
        ctx.check(want in rest, "quadratic constraint that became linear", name=nm, want=want, rest=rest)
        rest.remove(want)
    for nm, l, q, sn, r in exp_q:
        ctx.check(nm in gq, "quadratic constraint kept under its name", name=nm)
        c = gq[nm]
        gotq = {tuple(sorted((kept[i], kept[j]))): v for i, j, v in c["quad"]}
        ctx.equal((lin_of(c), gotq, c["s"], c["r"]), (l, q, sn, float(r)), "quadratic constraint", name=nm)

    # end to end: same objective value and same feasibility at every point
    for y in s["pts"]:
        if len(y) != len(kept):
            y = (y + [0] * n)[: len(kept)]
        x = [0] * n
        for k, i in enumerate(kept):
            x[i] = y[k]
        for i, r in sub.items():
            x[i] = r[1] if r[0] == "c" else r[2] * x[r[1]]
        if kept:
            ctx.close(dst.objective.evaluate(y), M.objective(p, x), "objective value at a point", y=y)
        if kept and not infeasible:
            ctx.equal(bool(dst.is_feasible(y)), M.feasible(p, x), "feasibility at a point", y=y, x=x)
        elif infeasible:
            ctx.check(not M.feasible(p, x), "a point of an INFEASIBLE program is feasible", x=x)
    used = {i for i, v in p["lin"] if v} | {t for i, j, v in p["quad"] if v for t in (i, j)}
    for c in p["lcs"] + p["qcs"]:
        used |= {i for i, v in c["lin"] if v}
        used |= {t for i, j, v in c.get("quad", []) if v for t in (i, j)}
    ctx.nontrivial(bool(used & set(sub)))
    ctx.label(dst.status.name, "degraded" if exp_deg else "plain", "empty-range" if empty else "range-ok",
              "reps={}".format(len(s["reps"])), "consts={}".format(len(s["consts"])))


@st.composite
def bad_case(draw):
    p = draw(G.problem(max_n=4, min_n=3, max_lcs=1, max_qcs=1))
    n = len(p["vars"])
    i, j, k = draw(st.permutations(list(range(n))))[:3]
    return {"p": p, "kind": draw(st.sampled_from(
        ["zero", "self", "twice_const", "const_and_var", "by_const", "chain", "chain_rev", "twice_var", "cycle", "unknown"])),
        "i": i, "j": j, "k": k, "by": draw(st.lists(st.booleans(), min_size=6, max_size=6)), "w": draw(st.sampled_from(W)),
        "c": draw(st.integers(-1, 2))}


def check_bad(s, ctx):
    p = s["p"]
    qp = M.build(p)
    snap = M.snapshot(qp)
    names = [v["n"] for v in p["vars"]]
    b = s["by"]
    K = lambda t, m: names[s[t]] if b[m] else s[t]  # noqa
    w, kind = s["w"], s["kind"]
    alt = lambda t: (names[s[t]], s[t])  # noqa
    consts, reps = None, None
    if kind == "zero":
        reps = {K("i", 0): (K("j", 1), 0)}
    elif kind == "self":
        reps = {K("i", 0): (K("i", 1), w)}
    elif kind == "twice_const":
        consts = {alt("i")[0]: s["c"], alt("i")[1]: s["c"]}
    elif kind == "const_and_var":
        consts, reps = {K("i", 0): s["c"]}, {K("i", 1): (K("j", 2), w)}
    elif kind == "by_const":
        consts, reps = {K("j", 0): s["c"]}, {K("i", 1): (K("j", 2), w)}
    elif kind == "chain":
        reps = {K("i", 0): (K("j", 1), w), K("j", 2): (K("k", 3), w)}
    elif kind == "chain_rev":
        reps = {K("j", 2): (K("k", 3), w), K("i", 0): (K("j", 1), w)}
    elif kind == "cycle":
        reps = {K("i", 0): (K("j", 1), w), K("j", 2): (K("i", 3), w)}
    elif kind == "twice_var":
        reps = {alt("i")[0]: (K("j", 1), w), alt("i")[1]: (K("k", 2), w)}
    elif kind == "unknown":
        reps = {K("i", 0): ("no such variable", w)}
    exc = (KeyError, IndexError, QiskitOptimizationError) if kind == "unknown" else QiskitOptimizationError
    ctx.raises(exc, lambda: qp.substitute_variables(consts, reps), "invalid substitution must be rejected", kind=kind)
    ctx.equal(M.snapshot(qp), snap, "the source program must not change")
    ctx.nontrivial()
    ctx.label(kind)


@st.composite
def rounding_case(draw):
    n = draw(st.integers(1, 6))
    return {
        "k": draw(st.lists(st.integers(1, 99), min_size=n, max_size=n)),
        "x": draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)),
        "quad": draw(st.booleans()),
        "neg": draw(st.booleans()),
        "off": draw(st.sampled_from([0, 0, 0, 1, -1])),
        "tie": draw(st.booleans()),
    }


def check_rounding(s, ctx):
    """an equality that holds in decimal arithmetic survives the substitution of all its variables"""
    n = len(s["k"])
    qp = M.QuadraticProgram()
    for i in range(n):
        qp.integer_var(0, 20, "x{}".format(i))
    qp.integer_var(0, 20, "free")
    qp.minimize(linear={"free": 1})
    sg = -1 if s["neg"] else 1
    coef = {i: sg * k / 10 for i, k in enumerate(s["k"])}
    if s["quad"]:
        exact = sum(k * x * x for k, x in zip(s["k"], s["x"]))
        qp.quadratic_constraint({}, {(i, i): v for i, v in coef.items()}, "==", sg * (exact + s["off"]) / 10, "c")
    else:
        exact = sum(k * x for k, x in zip(s["k"], s["x"]))
        qp.linear_constraint(coef, "==", sg * (exact + s["off"]) / 10, "c")
    dst = qp.substitute_variables({i: x for i, x in enumerate(s["x"])})
    ok = s["off"] == 0
    ctx.equal(bool(qp.is_feasible(s["x"] + [0])), ok, "feasibility of the original")
    ctx.equal(dst.status.name, "VALID" if ok else "INFEASIBLE", "status of the substituted program")
    ctx.equal(dst.get_num_linear_constraints() + dst.get_num_quadratic_constraints(), 0, "constraints left")
    ctx.nontrivial(n > 1)


@st.composite
def large_case(draw):
    return {"b": draw(G.large(max_n=16, max_lcs=10, max_qcs=5, inf=True, kinds=["int", "dyadic", "rough", "tiny"])),
            "seed": draw(st.integers(0, 10 ** 6)), "frac": draw(st.sampled_from([0.2, 0.5, 0.9]))}


def check_large(s, ctx):
    """many variables, constraints and substitutions at once"""
    import random

    p = G.expand(s["b"])
    n = len(p["vars"])
    rnd = random.Random(s["seed"])
    kept = sorted(rnd.sample(range(n), max(1, int(n * (1 - s["frac"])))))
    consts, reps = [], []
    for i in rnd.sample(range(n), n):
        if i in kept:
            continue
        v = p["vars"][i]
        if rnd.random() < 0.5:
            lo, hi = int(max(v["l"], -9)), int(min(v["u"], 9))
            val = lo if lo >= hi else rnd.randint(lo, hi)
            consts.append([i, max(v["l"], min(v["u"], val)), rnd.random() < 0.5])
        else:
            reps.append([i, rnd.choice(kept), rnd.choice(W), rnd.random() < 0.5])
    pts = [[rnd.randint(-3, 3) for _ in kept] for _ in range(3)]
    if s["b"]["kind"] in ("int", "dyadic"):
        check({"p": p, "consts": consts, "reps": reps, "pts": pts}, ctx)
        return
    qp = M.build(p)
    names = [v["n"] for v in p["vars"]]
    dst = qp.substitute_variables({names[i] if by else i: v for i, v, by in consts}, {names[i] if by else i: (names[j], w) for i, j, w, by in reps})
    ctx.equal([v.name for v in dst.variables], [names[i] for i in kept], "remaining variables")
    have = {c.name: c for c in dst.linear_constraints}
    haveq = {c.name: c for c in dst.quadratic_constraints}
    touched = {i for i, _, _ in consts} | {r[0] for r in reps}
    for y in pts:
        x = [0] * n
        for k, i in enumerate(kept):
            x[i] = y[k]
        for i, v, _ in consts:
            x[i] = v
        for i, j, w, _ in reps:
            x[i] = w * x[j]

        def same(got, const, lin, quad, what, **kw):
            t = [const] + [v * x[i] for i, v in lin] + [v * x[i] * x[j] for i, j, v in quad]
            ctx.check(abs(got - sum(t)) <= 1e-11 * (1 + sum(abs(a) for a in t)), what, got=got, want=sum(t), y=y, **kw)

        same(dst.objective.evaluate(y), p["const"], p["lin"], p["quad"], "objective value at a point")
        for c in p["lcs"]:
            if all(i in kept for i, _ in c["lin"]):
                ctx.check(c["n"] in have, "an untouched constraint is kept", name=c["n"])
            if c["n"] in have:
                d = have[c["n"]]
                ctx.equal(M.SENSE_INV[d.sense], c["s"], "sense")
                same(d.evaluate(y) - d.rhs, -c["r"], c["lin"], [], "linear constraint at a point", name=c["n"])
            else:
                ctx.check(not any(i in kept or any(r[0] == i for r in reps) for i, _ in c["lin"]) or _cancels(c, reps, kept), "a constraint with variables left is kept", name=c["n"])
        for c in p["qcs"]:
            if c["n"] in haveq:
                d = haveq[c["n"]]
                ctx.equal(M.SENSE_INV[d.sense], c["s"], "sense")
                same(d.evaluate(y) - d.rhs, -c["r"], c["lin"], c["quad"], "quadratic constraint at a point", name=c["n"])
    ctx.nontrivial(bool(touched))
    ctx.label(s["b"]["kind"], "kept={}".format(len(kept) // 3 * 3))


def _cancels(c, reps, kept):
    """the terms of the constraint cancel (up to rounding)"""
    rep = {i: (j, w) for i, j, w, _ in reps}
    out = {}
    for i, v in c["lin"]:
        if i in kept:
            out[i] = out.get(i, 0) + v
        elif i in rep:
            j, w = rep[i]
            out[j] = out.get(j, 0) + v * w
    return all(abs(v) < 1e-12 for v in out.values())


SUBCHECKS = [
    Sub("large", large_case(), check_large, 500, 6000),
    Sub("rounding", rounding_case(), check_rounding, 600, 6000),
    Sub("substitute", case(), check, 4000, 80000),
    Sub("invalid", bad_case(), check_bad, 600, 6000),
]
