"""C15: the classical optimizers (CPLEX, SLSQP, COBYLA, multi start) return optima and consistent results."""
import random
from itertools import combinations

import numpy as np
from hypothesis import strategies as st

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import (
    CobylaOptimizer,
    CplexOptimizer,
    OptimizationResultStatus,
    SlsqpOptimizer,
)
from qiskit_optimization.algorithms.multistart_optimizer import MultiStartOptimizer

from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C15"
RULE = (
    "cplex: integer programs with linear constraints of all senses against enumeration (infeasible ones included). "
    "convex: batches of 8 strictly convex (concave for maximize) programs over boxes and half-open ranges with linear "
    "equalities and inequalities and a quadratic ball constraint through a known feasible point, SLSQP and COBYLA with "
    "several trials and options, against active-set enumeration or a grid of feasible points. "
    "limits: SLSQP with few iterations. multistart: a stub local solver returning generated points, unbounded variables and clipping. spread: 41 trials. Non-trivial: some "
    "constraint or bound changes the optimum (convex), constraints exclude points (cplex), the limit is reached (limits), trials disagree (multistart)."
)
SUCCESS = OptimizationResultStatus.SUCCESS
INFEASIBLE = OptimizationResultStatus.INFEASIBLE
FAILURE = OptimizationResultStatus.FAILURE
TOL = 1e-5


def consistent(ctx, p, res, tol=TOL):
    names = [v["n"] for v in p["vars"]]
    x = [float(a) for a in res.x]
    ctx.equal(len(x), len(names), "length of x")
    ctx.equal(res.variable_names, names, "variable names")
    ctx.close(res.fval, M.objective(p, x), "fval is the objective at x", tol=1e-6, x=x)
    ctx.equal({k: float(v) for k, v in res.variables_dict.items()}, dict(zip(names, x)), "variables_dict")
    for i, nm in enumerate(names):
        ctx.equal((float(res[i]), float(res[nm])), (x[i], x[i]), "lookup")
    if not M.feasible(p, x, tol):
        ctx.equal(res.status, INFEASIBLE, "an infeasible point is reported as such", x=x)
    elif M.feasible(p, x, -tol):
        ctx.equal(res.status, SUCCESS, "a feasible point is reported as such", x=x)
    ctx.equal(len(res.samples), 1, "one sample")
    sm = res.samples[0]
    ctx.equal(([float(a) for a in sm.x], float(sm.fval), float(sm.probability), sm.status), (x, float(res.fval), 1.0, res.status), "the sample is the result")
    return x


# ---------------------------------------------------------------- cplex
@st.composite
def cplex_case(draw):
    p = draw(G.problem(types=draw(st.sampled_from(["B", "BI", "I"])), min_n=1, max_n=5, max_range=4,
                       value=draw(st.sampled_from([G.nz_ints, G.nz_dyadic])), cvalue=draw(st.sampled_from([G.nz_ints, G.nz_dyadic])),
                       min_lcs=draw(st.sampled_from([0, 1])), max_lcs=3, allow_inf=False, max_points=600))
    return {"p": p}


def check_cplex(s, ctx):
    p = s["p"]
    qp = M.build(p)
    snap = M.snapshot(qp)
    opt = CplexOptimizer()
    ctx.check(opt.is_compatible(qp), "compatible")
    try:
        res = opt.solve(qp)
    except QiskitOptimizationError:
        ctx.check(bool(p["quad"]), "only non-convex programs may be refused")
        ctx.label("refused")
        return
    ctx.equal(M.snapshot(qp), snap, "the program must not change")
    best, arg = M.brute(p)
    if best is None:
        ctx.equal((res.status, res.x, res.fval), (FAILURE, None, None), "no solution is a failure")
        ctx.label("infeasible")
        return
    x = consistent(ctx, p, res)
    ctx.close(res.fval, best, "the optimum is found", tol=1e-5, x=x)
    ctx.check(tuple(round(a) for a in x) in arg, "x is optimal", x=x)
    ctx.check(all(abs(a - round(a)) < 1e-5 for a in x), "x is integer")
    ctx.nontrivial(any(not M.constraints_ok(p, y) for y in M.points(p)))


# ---------------------------------------------------------------- convex programs
SOLVERS = ["slsqp", "slsqp_full", "cobyla", "cobyla"]


@st.composite
def convex_case(draw):
    n = draw(st.integers(1, 3))
    return {"n": n, "sense": draw(st.sampled_from(["min", "max"])),
            "bounds": draw(st.lists(st.sampled_from(["box", "box", "lower", "upper"]), min_size=n, max_size=n)),
            "cons": draw(st.lists(st.sampled_from(["<=", ">=", "=="] if n > 1 else ["<=", ">="]), max_size=2)
                         .filter(lambda c: c.count("==") < 2)),
            "ball": draw(st.sampled_from([None, None, "<=", ">="])),
            # numbers that an implementation may treat specially, in all programs of the batch
            "theme": draw(st.sampled_from(["any", "any", "lower0", "upper0", "rhs0", "unit"])),
            "solver": draw(st.sampled_from(SOLVERS)), "trials": draw(st.sampled_from([1, 1, 2, 4])),
            "seed": draw(st.integers(0, 2 ** 31))}


BATCH = 8


def convex_program(s, rnd):
    """a strictly convex (concave) program of the drawn kind with a known feasible point, numbers from rnd"""
    n = s["n"]
    sg = 1 if s["sense"] == "min" else -1
    vs, x0 = [], []
    for k in range(n):
        l = rnd.randint(-12, 8) / 4
        u = l + rnd.randint(2, 20) / 4
        if s["theme"] == "lower0":
            l, u = 0, u - l
        elif s["theme"] == "upper0":
            l, u = l - u, 0
        elif s["theme"] == "unit":
            l, u = 0, 1
        x0.append(l + (u - l) / 2)
        kind = s["bounds"][k]
        vs.append({"n": "v{}".format(k), "t": "C", "l": -G.INF if kind == "upper" else l, "u": G.INF if kind == "lower" else u})
    quad = []
    diag = [0.0] * n
    for i in range(n):
        for j in range(i):
            v = rnd.randint(-2, 2)
            if v:
                quad.append([j, i, sg * v])
                diag[i] += abs(v)
                diag[j] += abs(v)
    for i in range(n):
        quad.append([i, i, sg * (diag[i] + rnd.randint(1, 3))])
    lcs = []
    for k, sense in enumerate(s["cons"]):
        lin = [[i, rnd.randint(-3, 3)] for i in range(n)]
        lin = [t for t in lin if t[1]] or [[0, 1]]
        at = M.ev_lin(lin, x0)
        slack = rnd.randint(1, 8) / 4
        if s["theme"] == "rhs0" and sense != "==" and at:
            if (at > 0) != (sense == ">="):
                lin, at = [[i, -v] for i, v in lin], -at
            slack = abs(at)
        lcs.append({"n": "k{}".format(k), "lin": lin, "s": sense, "r": at + {"<=": slack, ">=": -slack, "==": 0}[sense]})
    qcs = []
    if s["ball"]:
        # sum of a_i (x_i - x0_i)**2 <= r, written out, possibly negated
        a = [rnd.randint(1, 3) for _ in range(n)]
        r = rnd.randint(1, 12) / 4
        t = 1 if s["ball"] == "<=" else -1
        qcs = [{"n": "ball", "lin": [[i, -2 * t * a[i] * x0[i]] for i in range(n)], "quad": [[i, i, t * a[i]] for i in range(n)],
                "s": s["ball"], "r": t * (r - sum(a[i] * x0[i] ** 2 for i in range(n)))}]
    return {"name": "", "vars": vs, "sense": s["sense"], "const": rnd.randint(-3, 3),
            "lin": [[i, rnd.randint(-8, 8)] for i in range(n)], "quad": quad, "lcs": lcs, "qcs": qcs}, x0


def convex_optimum(p):
    """minimum of a strictly convex quadratic over linear constraints: enumerate the active sets"""
    n = len(p["vars"])
    sg = M.sgn(p)
    H = np.zeros((n, n))
    for i, j, v in p["quad"]:
        H[i, j] += sg * v
        H[j, i] += sg * v
    g = np.zeros(n)
    for i, v in p["lin"]:
        g[i] += sg * v
    eqs, ineqs = [], []
    for c in p["lcs"]:
        row = np.zeros(n)
        for i, v in c["lin"]:
            row[i] += v
        (eqs if c["s"] == "==" else ineqs).append((row, c["r"]))
    for i, v in enumerate(p["vars"]):
        for b in (v["l"], v["u"]):
            if abs(b) < G.INF:
                row = np.zeros(n)
                row[i] = 1
                ineqs.append((row, b))
    best = None
    for k in range(0, n - len(eqs) + 1):
        for sub in combinations(ineqs, k):
            act = eqs + list(sub)
            m = len(act)
            A = np.array([r for r, _ in act]).reshape(m, n)
            b = np.array([r for _, r in act])
            K = np.block([[H, A.T], [A, np.zeros((m, m))]])
            try:
                sol = np.linalg.solve(K, np.concatenate([-g, b]))
            except np.linalg.LinAlgError:
                continue
            x = sol[:n]
            if not np.all(np.isfinite(x)) or not M.feasible(p, x, 1e-9):
                continue
            f = M.objective(p, x)
            if best is None or sg * f < sg * best[0]:
                best = (f, x)
    return best


def grid_best(p, x0):
    """the best of many feasible points (pulled towards a known feasible one)"""
    sg = M.sgn(p)
    x0 = np.array(x0)
    best = M.objective(p, x0)
    half = [min(v["u"] - c, c - v["l"], 3) for v, c in zip(p["vars"], x0)]
    grid = np.meshgrid(*[np.linspace(-1, 1, 9) * h for h in half], indexing="ij")
    eq = [c for c in p["lcs"] if c["s"] == "=="]
    for d in np.stack([g.ravel() for g in grid], axis=1):
        for c in eq:
            row = np.zeros(len(x0))
            for i, v in c["lin"]:
                row[i] += v
            d = d - row * (row @ d) / (row @ row)
        for t in (1.0, 0.75, 0.5, 0.25):
            z = x0 + t * d
            if M.feasible(p, z, 1e-12):
                f = M.objective(p, z)
                if sg * f < sg * best:
                    best = f
                break
    return best


def alternatives(solver):
    """other settings: a program counts as not solved only if all of them fail on it too"""
    if solver == "cobyla":
        return [CobylaOptimizer(rhobeg=r, rhoend=1e-7, maxfun=8000, trials=t) for r, t in ((1.0, 1), (0.2, 1), (0.7, 3))]
    return [SlsqpOptimizer(trials=t, acc=a, iter=500) for a, t in ((1e-8, 1), (1e-10, 3))]


def exit_mode(ctx, res):
    """the exit code and its message belong together (messages of scipy.optimize.fmin_slsqp)"""
    ctx.equal((res.imode == 0, res.imode == 9), ("successfully" in str(res.smode), "Iteration limit" in str(res.smode)),
              "exit mode and message", imode=res.imode, smode=res.smode)


def check_convex(s, ctx):
    rnd = random.Random(s["seed"])
    missed = []
    changed = False
    for _ in range(BATCH):
        p, x0 = convex_program(s, rnd)
        qp = M.build(p)
        snap = M.snapshot(qp)
        np.random.seed(s["seed"])
        if s["solver"] == "cobyla":
            opt = CobylaOptimizer(rhobeg=0.5, rhoend=1e-7, maxfun=4000, trials=s["trials"])
            tol, ftol = 1e-3, 2e-2
        else:
            opt = SlsqpOptimizer(trials=s["trials"], acc=1e-9, iter=300, full_output=s["solver"] == "slsqp_full")
            tol, ftol = 1e-5, 1e-4
        ctx.check(opt.is_compatible(qp), "continuous programs are compatible")
        res = opt.solve(qp)
        ctx.equal(M.snapshot(qp), snap, "the program must not change")
        x = consistent(ctx, p, res, tol)
        sg = M.sgn(p)
        if s["solver"] == "slsqp_full":
            ctx.close(res.fx, sg * res.fval, "fx is the value minimised", tol=1e-6)
            ctx.check(1 <= res.its <= 300, "number of iterations", its=res.its)
            exit_mode(ctx, res)
        elif s["solver"] == "slsqp":
            ctx.equal((res.fx, res.its, res.imode, res.smode), (None, None, None, None), "no details unless asked for")
        if p["qcs"]:
            f = grid_best(p, x0)
        else:
            f, y = convex_optimum(p)
            if M.feasible(p, x, 1e-9):
                ctx.check(sg * res.fval >= sg * f - 1e-6 * max(1, abs(f)), "no feasible point beats the optimum", got=res.fval, optimum=f)
        def bad(r):
            z = [float(a) for a in r.x]
            return not M.feasible(p, z, tol) or sg * r.fval > sg * f + ftol * max(1, abs(f))

        if bad(res) and all(bad(other.solve(qp)) for other in alternatives(s["solver"])):
            missed.append({"p": p, "x": x, "fval": res.fval, "reference": f})
        free = convex_optimum(dict(p, lcs=[], qcs=[], vars=[dict(v, l=-G.INF, u=G.INF) for v in p["vars"]]))
        changed |= abs(free[0] - f) > 1e-6
    # the local solvers of SciPy stall now and then (COBYLA on about one program in 2000, before trying other settings)
    ctx.check(len(missed) < 2, "convex programs are solved", missed=len(missed), of=BATCH, first=missed[:1])
    ctx.nontrivial(changed)
    ctx.label(s["theme"], s["solver"], "trials={}".format(s["trials"]), s["sense"], "missed={}".format(len(missed)), "ball" if s["ball"] else "linear")


# ---------------------------------------------------------------- iteration limits
@st.composite
def limit_case(draw):
    return {"c": draw(convex_case()), "iter": draw(st.sampled_from([1, 2, 3, 5, 100]))}


def check_limit(s, ctx):
    """few iterations: the result still describes the point it contains, and the limit is kept and reported"""
    c = dict(s["c"], solver="slsqp_full")
    p, _ = convex_program(c, random.Random(c["seed"]))
    qp = M.build(p)
    np.random.seed(c["seed"])
    opt = SlsqpOptimizer(iter=s["iter"], trials=c["trials"], full_output=True)
    res = opt.solve(qp)
    ctx.close(res.fval, M.objective(p, res.x), "fval is the objective at x", tol=1e-6)
    ctx.close(res.fx, M.sgn(p) * res.fval, "fx is the value minimised", tol=1e-6)
    ctx.check(1 <= res.its <= s["iter"], "the iteration limit is kept", its=res.its)
    exit_mode(ctx, res)
    consistent(ctx, p, res)
    ctx.label("iter={}".format(s["iter"]), "imode={}".format(res.imode))
    ctx.nontrivial(res.imode == 9)


# ---------------------------------------------------------------- multi start
class Stub(MultiStartOptimizer):
    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        return self.multi_start_solve(self.minimize, problem)


@st.composite
def multi_case(draw):
    p = draw(G.problem(types="C", min_n=1, max_n=3, max_lcs=draw(st.sampled_from([0, 0, 1])), value=G.nz_dyadic))
    n = len(p["vars"])
    t = draw(st.integers(1, 5))
    return {"p": p, "pts": draw(st.lists(st.lists(st.integers(0, 40), min_size=n, max_size=n), min_size=t, max_size=t)),
            "clip": draw(st.sampled_from([100.0, 1.0, 7.5])), "via": draw(st.booleans()), "seed": draw(st.integers(0, 999))}


def check_multi(s, ctx):
    p = s["p"]
    qp = M.build(p)
    pts = []
    for row in s["pts"]:
        x = []
        for k, v in zip(row, p["vars"]):
            lo, hi = max(v["l"], -5), min(v["u"], 5)
            if lo > hi:
                lo = hi = (v["u"] if v["u"] < -5 else v["l"])
            x.append(lo + (hi - lo) * k / 40)
        pts.append(x)
    ok = [M.constraints_ok(p, x) for x in pts]
    if any(ok) and not all(ok):
        ctx.discard()
    starts = []
    opt = Stub(len(pts), s["clip"]) if s["via"] else Stub()
    if not s["via"]:
        opt.trials = len(pts)
        opt.clip = s["clip"]
    ctx.equal((opt.trials, opt.clip), (len(pts), s["clip"]), "settings")

    def minimize(x0):
        starts.append(list(x0))
        return np.array(pts[len(starts) - 1]), ("rest", len(starts) - 1)

    opt.minimize = minimize
    np.random.seed(s["seed"])
    res = opt.solve(qp)
    ctx.equal(len(starts), len(pts), "number of trials")
    ctx.equal([float(a) for a in starts[0]], [0.0] * len(p["vars"]), "the first guess is zero")
    for x0 in starts[1:]:
        for a, v in zip(x0, p["vars"]):
            lo = v["l"] if v["l"] > -G.INF else -s["clip"]
            hi = v["u"] if v["u"] < G.INF else s["clip"]
            if lo > hi:
                ctx.check(v["l"] <= a <= v["u"], "guesses lie within the bounds", guess=x0, var=v)
            else:
                ctx.check(lo - 1e-9 <= a <= hi + 1e-9, "guesses lie within the bounds, clipped", guess=x0, var=v)
    sg = M.sgn(p)
    vals = [M.objective(p, x) for x in pts]
    best = min(vals, key=lambda f: sg * f)
    x = consistent(ctx, p, res, 1e-9)
    ctx.close(res.fval, best, "the best trial is returned", values=vals, tol=1e-9)
    k = res.raw_results[1]
    ctx.equal(x, [float(a) for a in pts[k]], "raw results belong to the returned point")
    ctx.nontrivial(len(set(vals)) > 1 and len(pts) > 1)
    ctx.label("trials={}".format(len(pts)), p["sense"])


@st.composite
def spread_case(draw):
    b = st.one_of(st.integers(-40, 40).map(lambda k: k / 4), st.sampled_from([None, None]))
    vs = []
    for i in range(draw(st.integers(1, 3))):
        l, u = draw(b), draw(b)
        if l is not None and u is not None and l > u:
            l, u = u, l
        vs.append([l, u])
    return {"vs": vs, "clip": draw(st.sampled_from([100.0, 3.0, 12.5])), "seed": draw(st.integers(0, 999)), "default": draw(st.integers(0, 3)) == 1}


def check_spread(s, ctx):
    """the guesses of many trials cover the (clipped) range of every variable, not only a part of it"""
    clip = 100.0 if s["default"] else s["clip"]
    vs = [{"n": "x{}".format(i), "t": "C", "l": -G.INF if l is None else l, "u": G.INF if u is None else u} for i, (l, u) in enumerate(s["vs"])]
    qp = M.build({"name": "", "vars": vs, "sense": "min", "const": 0, "lin": [[0, 1]], "quad": [], "lcs": [], "qcs": []})
    opt = Stub(trials=41) if s["default"] else Stub(41, s["clip"])
    starts = []

    def minimize(x0):
        starts.append(list(x0))
        return np.zeros(len(vs)), None

    opt.minimize = minimize
    np.random.seed(s["seed"])
    opt.solve(qp)
    for k, v in enumerate(vs):
        lo = v["l"] if v["l"] > -G.INF else -clip
        hi = v["u"] if v["u"] < G.INF else clip
        got = [float(x0[k]) for x0 in starts[1:]]
        if lo < hi:
            mid = (lo + hi) / 2
            ctx.check(any(a < mid for a in got) and any(a > mid for a in got), "guesses are spread over the range of a variable",
                      range=(lo, hi), least=min(got), greatest=max(got))
            ctx.nontrivial(v["l"] <= -G.INF or v["u"] >= G.INF)
        ctx.check(all(v["l"] <= a <= v["u"] for a in got), "guesses lie within the bounds", var=v)


# ---------------------------------------------------------------- compatibility
@st.composite
def compat_case(draw):
    return {"p": draw(G.problem(types="BIC", max_n=3, max_lcs=1, max_qcs=1)), "solver": draw(st.sampled_from(["slsqp", "cobyla"]))}


def check_compat(s, ctx):
    p = s["p"]
    qp = M.build(p)
    opt = SlsqpOptimizer(iter=5) if s["solver"] == "slsqp" else CobylaOptimizer(maxfun=5)
    bad = any(v["t"] != "C" for v in p["vars"])
    ctx.equal(opt.is_compatible(qp), not bad, "compatible iff all variables are continuous")
    ctx.equal(bool(opt.get_compatibility_msg(qp)), bad, "message")
    if bad:
        snap = M.snapshot(qp)
        ctx.raises(QiskitOptimizationError, lambda: opt.solve(qp), "incompatible programs must be rejected")
        ctx.equal(M.snapshot(qp), snap, "the program must not change")
    ctx.nontrivial(bad and any(v["t"] == "C" for v in p["vars"]))


SUBCHECKS = [
    Sub("cplex", cplex_case(), check_cplex, 500, 6000),
    Sub("convex", convex_case(), check_convex, 240, 5000),
    Sub("limits", limit_case(), check_limit, 400, 4000),
    Sub("multistart", multi_case(), check_multi, 1500, 15000),
    Sub("spread", spread_case(), check_spread, 250, 2500),
    Sub("compat", compat_case(), check_compat, 200, 1500),
]
