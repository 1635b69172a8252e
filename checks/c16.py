"""C16: ADMMOptimizer runs the documented iteration and returns its best iterate."""
from itertools import product

import numpy as np
from hypothesis import strategies as st

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import (
    ADMMOptimizer,
    MinimumEigenOptimizer,
    OptimizationAlgorithm,
    OptimizationResult,
    OptimizationResultStatus,
    SlsqpOptimizer,
)
from qiskit_optimization.algorithms.admm_optimizer import (
    ADMMParameters,
    UPDATE_RHO_BY_RESIDUALS,
    UPDATE_RHO_BY_TEN_PERCENT,
)
from qiskit_optimization.converters import IntegerToBinary

from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C16"
RULE = (
    "trace: programs with binary, integer and continuous variables, separable objectives of both senses and linear "
    "and quadratic constraints; the two block solvers are recorders that answer with generated iterates, so every "
    "sub-problem, multiplier, rho and merit is compared with a reference ADMM over 1-6 iterations (2 and 3 blocks, "
    "both rho rules, warm start, time limits, parameters left out). large: the same with 6-10 variables and arbitrary floats. solve: real block solvers, result consistency. reject: objectives that couple "
    "discrete and continuous variables. Non-trivial: two or more iterations with a non-zero residual (trace), a "
    "constraint or discrete variable (solve), every rejection."
)


def drop_constant(p):
    """a constraint without variables cannot be written as LP, which the optimizer does for its log"""
    p["lcs"] = [c for c in p["lcs"] if any(v and p["vars"][i]["l"] < p["vars"][i]["u"] for i, v in c["lin"])]
    p["qcs"] = [c for c in p["qcs"] if any(v and p["vars"][i]["l"] < p["vars"][i]["u"] for i, v in c["lin"])]


@st.composite
def prog(draw, max_n=5, types="BBIC", allow_inf=True, max_qcs=1):
    p = draw(G.problem(types=types, min_n=1, max_n=max_n, max_range=5, max_lcs=3, max_qcs=max_qcs, allow_inf=allow_inf))
    disc = [v["t"] != "C" for v in p["vars"]]
    p["quad"] = [[i, j, v] for i, j, v in p["quad"] if disc[i] == disc[j]]
    k = draw(st.integers(0, 9))
    three = [i for i, b in enumerate(disc) if b]
    if k in (5, 6) and len(three) >= 3:  # products of one variable whose coefficients cancel out
        i, j, l = draw(st.permutations(three))[:3]
        v = draw(st.integers(1, 5))
        p["lin"] = [t for t in p["lin"] if t[0] != i]
        p["quad"] = [t for t in p["quad"] if i not in t[:2]] + [[i, j, v], [l, i, -v]]
    drop_constant(p)
    return p


# the documented values of parameters that are not given
DEFAULTS = {"rho_initial": 10000, "factor_c": 100000, "beta": 1000, "maxiter": 10, "tol": 1e-4, "max_time": "inf", "three_block": True,
            "vary_rho": 0, "tau_incr": 2, "tau_decr": 2, "mu_res": 10, "mu_merit": 1000}


@st.composite
def trace_case(draw):
    p = draw(prog())
    q = st.integers(-8, 8)
    iters = draw(st.sampled_from([3, 4, 2, 6, 5, 1]))
    its = [
        {
            "x0": draw(st.lists(st.integers(0, 1), min_size=6, max_size=6)),
            "z": draw(st.lists(st.integers(0, 4), min_size=6, max_size=6)),
            "u": draw(st.lists(st.integers(0, 24), min_size=5, max_size=5)),
            "y": draw(st.lists(q, min_size=6, max_size=6)),
            "agree": draw(st.integers(0, 9)) == 7,
        }
        for _ in range(iters)
    ]
    return {
        "p": p,
        "its": its,
        "warm": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 24), min_size=8, max_size=8))),
        "prm": {
            "rho_initial": draw(st.sampled_from([0.5, 1, 3, 1000, 10000, 0.5, 1, 3, 1000, 10000, 5e6])),
            "factor_c": draw(st.sampled_from([1, 7, 900, 100000])),
            "beta": draw(st.sampled_from([1, 5, 1000])),
            "maxiter": iters,
            "max_time": draw(st.sampled_from(["inf", "inf", "inf", "inf", 3600, 3600.0, 1e-9])),
            "tol": draw(st.sampled_from([1e-4, 1e-4, 1e-4, 0.3, 1.1])),
            "three_block": draw(st.booleans()),
            "vary_rho": draw(st.sampled_from([UPDATE_RHO_BY_TEN_PERCENT, UPDATE_RHO_BY_RESIDUALS])),
            "tau_incr": draw(st.sampled_from([2, 3])),
            "tau_decr": draw(st.sampled_from([2, 4])),
            "mu_res": draw(st.sampled_from([0.5, 1, 10])),
            "mu_merit": draw(st.sampled_from([0, 1, 10, 1000])),
        },
        "omit": draw(st.lists(st.sampled_from(sorted(DEFAULTS)), max_size=3, unique=True)) if draw(st.booleans()) else [],
        "alias": draw(st.integers(0, 7)) == 0,
        "late": draw(st.booleans()),
        "again": draw(st.booleans()),
    }


class Recorder(OptimizationAlgorithm):
    """a block solver that records the problem it is given and answers what the case says"""

    def __init__(self, answer):
        self.answer = answer

    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        spec = M.read(problem)
        x = self.answer(spec)
        return OptimizationResult(
            x=np.array(x, dtype=float), fval=problem.objective.evaluate(x), variables=problem.variables,
            status=OptimizationResultStatus.SUCCESS,
        )


def clip(v, k):
    """a value on the quarter grid within the bounds of a continuous variable"""
    lo, hi = v["l"], v["u"]
    if lo <= -1e19 and hi >= 1e19:
        return (k - 12) / 4
    if lo <= -1e19:
        return hi - k / 4
    return min(lo + k / 4, hi)


def values(lin, quad, X):
    out = np.zeros(len(X))
    for i, v in lin:
        out += v * X[:, i]
    for i, j, v in quad:
        out += v * X[:, i] * X[:, j]
    return out


def same_function(ctx, got, want, what, **kw):
    """equal up to a constant"""
    got, want = np.asarray(got) - got[0], np.asarray(want) - want[0]
    scale = max(1.0, np.abs(want).max())
    d = np.abs(got - want)
    k = int(d.argmax())
    ctx.check(d[k] <= 1e-9 * scale, what, at=k, got_value=float(got[k]), want_value=float(want[k]), **kw)


def check_trace(s, ctx):
    p = s["p"]
    qp = M.build(p)
    snap = M.snapshot(qp)
    prm = dict(s["prm"], warm_start=s["warm"] is not None)
    prm.update({k: DEFAULTS[k] for k in s["omit"]})
    prm["max_time"] = np.inf if prm["max_time"] == "inf" else prm["max_time"]
    given = {k: v for k, v in prm.items() if k not in s["omit"]}
    if s["alias"] and "maxiter" in given:
        given["max_iter"] = given.pop("maxiter")  # the former name of the parameter
    if not prm["warm_start"]:
        given.pop("warm_start")
    limit = prm["maxiter"] if prm["max_time"] > 1 else 1
    # the binary program, by a converter of our own
    conv = IntegerToBinary()
    b = M.read(conv.convert(M.build(p)))
    sg = M.sgn(b)
    B = [k for k, v in enumerate(b["vars"]) if v["t"] == "B"]
    C = [k for k, v in enumerate(b["vars"]) if v["t"] == "C"]
    N = len(b["vars"])
    names = [v["n"] for v in b["vars"]]
    relb = {k: r for r, k in enumerate(B)}
    q0 = [(i, j, sg * v) for i, j, v in b["quad"] if i in relb and j in relb]
    c0 = [(i, sg * v) for i, v in b["lin"] if i in relb]
    q1 = [(i, j, sg * v) for i, j, v in b["quad"] if i not in relb and j not in relb]
    c1 = [(i, sg * v) for i, v in b["lin"] if i not in relb]
    pure = [c for c in b["lcs"] if c["s"] == "==" and all(i in relb for i, _ in c["lin"])]
    needed = {i for i, _ in c0} | {i for t in q0 for i in t[:2]} | {i for c in pure for i, _ in c["lin"]}

    st_ = {}

    def reset():
        st_.update(it=0, phase="warm" if s["warm"] is not None else "step1", rho=float(prm["rho_initial"]), x0=np.zeros(len(B)), z=np.zeros(len(B)),
                   y=np.zeros(len(B)), lam=np.zeros(len(B)), u=np.zeros(len(C)), zprev=np.zeros(len(B)), log=[], done=False)

    probe = [np.array([(k >> t) & 1 for t in range(N)], dtype=float) for k in range(min(2 ** N, 64))]
    rng = np.random.RandomState(7)
    probe += [rng.randint(0, 2, N).astype(float) for _ in range(24)]
    PB = np.array(probe)
    PC = np.vstack([np.zeros((1, N)), np.eye(N), 2 * np.eye(N), rng.randint(-8, 9, (30, N)) / 4])

    def begin():
        """a new iteration starts"""
        ctx.check(not st_["done"], "no block is solved after the residual fell below the tolerance")
        ctx.check(st_["it"] < limit, "at most maxiter iterations within max_time")

    def ans():
        return s["its"][min(st_["it"], len(s["its"]) - 1)]

    def qubo(spec):
        begin()
        ctx.equal(st_["phase"], "step1", "order of the blocks")
        ctx.check(all(v["t"] == "B" for v in spec["vars"]), "the first block is binary")
        ctx.equal(spec["lcs"] + spec["qcs"], [], "the first block is unconstrained")
        vn = [v["n"] for v in spec["vars"]]
        ctx.check(set(vn) <= {names[k] for k in B} and len(set(vn)) == len(vn), "variables of the first block", got_names=vn)
        idx = [names.index(v) for v in vn]
        ctx.check(needed <= set(idx), "every binary variable of the objective and of the binary equalities is in the first block",
                  missing=[names[k] for k in needed - set(idx)])
        X = np.zeros_like(PB)
        X[:, idx] = PB[:, : len(idx)]
        f = values(c0, q0, X)
        for c in pure:
            f += prm["factor_c"] / 2 * (values(c["lin"], [], X) - c["r"]) ** 2
        for k in idx:
            r = relb[k]
            f += st_["lam"][r] * X[:, k] + st_["rho"] / 2 * (X[:, k] - st_["z"][r] - st_["y"][r]) ** 2
        got = M.sgn(spec) * values(spec["lin"], spec["quad"], PB)
        same_function(ctx, got, f, "objective of the first block", iteration=st_["it"])
        x = [ans()["x0"][t % 6] for t in range(len(idx))]
        full = np.zeros(len(B))
        for k, v in zip(idx, x):
            full[relb[k]] = v
        st_["x0"] = full
        st_["phase"] = "step2"
        return x

    def step_bounds(spec, bin_bounds):
        for k, v in enumerate(spec["vars"]):
            ctx.equal(v["t"], "C", "variables of a continuous block")
            if k in relb:
                ctx.equal((v["l"], v["u"]), bin_bounds, "bounds of relaxed binary variables")
            else:
                ctx.equal((v["l"], v["u"]), (b["vars"][k]["l"], b["vars"][k]["u"]), "bounds of continuous variables")

    def cons(cs):
        return sorted([c["n"], c["s"], c["r"], c["lin"], c.get("quad", [])] for c in cs)

    def cont(spec):
        if st_["phase"] == "warm":
            ctx.equal([v["n"] for v in spec["vars"]], names, "variables of the relaxation")
            step_bounds(spec, (0.0, 1.0))
            ctx.equal(cons(spec["lcs"] + spec["qcs"]), cons(b["lcs"] + b["qcs"]), "constraints of the relaxation")
            same_function(ctx, M.sgn(spec) * values(spec["lin"], spec["quad"], PC), sg * values(b["lin"], b["quad"], PC), "objective of the relaxation")
            x = [min(s["warm"][k % 8], 4) / 4 if k in relb else clip(b["vars"][k], s["warm"][k % 8]) for k in range(N)]
            st_["x0"] = np.array([x[k] for k in B])
            st_["z"] = np.array([x[k] for k in B])
            st_["u"] = np.array([x[k] for k in C])
            st_["phase"] = "step1"
            return x
        if st_["phase"] == "step1":
            ctx.check(not needed, "the first block is solved when there is something to decide")
            begin()
            st_["phase"] = "step2"
        if st_["phase"] == "step2":
            ctx.equal([v["n"] for v in spec["vars"]], names, "variables of the second block")
            step_bounds(spec, (0.0, 1.0))
            ctx.equal(cons(spec["lcs"] + spec["qcs"]), cons([c for c in b["lcs"] if c not in pure] + b["qcs"]), "constraints of the second block")
            f = values(c1, q1, PC)
            for k in B:
                r = relb[k]
                f += -st_["lam"][r] * PC[:, k] + st_["rho"] / 2 * (st_["x0"][r] - PC[:, k] - st_["y"][r]) ** 2
            same_function(ctx, M.sgn(spec) * values(spec["lin"], spec["quad"], PC), f, "objective of the second block", iteration=st_["it"])
            a = ans()
            z = [st_["x0"][r] if a["agree"] and 0 <= st_["x0"][r] <= 1 else a["z"][r % 6] / 4 for r in range(len(B))]
            u = [clip(b["vars"][k], a["u"][t % 5]) for t, k in enumerate(C)]
            st_["zprev"], st_["z"], st_["u"] = st_["z"], np.array(z), np.array(u)
            x = np.zeros(N)
            x[B] = z
            x[C] = u
            if prm["three_block"] and B:
                st_["phase"] = "step3"
            else:
                finish()
            return x
        ctx.equal([v["n"] for v in spec["vars"]], [names[k] for k in B], "variables of the third block")
        for v in spec["vars"]:
            ctx.equal(v["t"], "C", "variables of the third block")
            ctx.check(v["l"] <= -1e19 and v["u"] >= 1e19, "the third block is unbounded", bounds=(v["l"], v["u"]))
        ctx.equal(spec["lcs"] + spec["qcs"], [], "the third block is unconstrained")
        Y = PC[:, : len(B)]
        f = np.zeros(len(Y))
        for r in range(len(B)):
            f += prm["beta"] / 2 * Y[:, r] ** 2 - st_["lam"][r] * Y[:, r] + st_["rho"] / 2 * (st_["x0"][r] - st_["z"][r] - Y[:, r]) ** 2
        same_function(ctx, M.sgn(spec) * values(spec["lin"], spec["quad"], Y), f, "objective of the third block", iteration=st_["it"])
        a = ans()
        st_["y"] = np.array([0.0 if a["agree"] else a["y"][r % 6] / 8 for r in range(len(B))])
        y = st_["y"]
        finish()
        return y

    def finish():
        """the bookkeeping at the end of an iteration"""
        rho = st_["rho"]
        r = st_["x0"] - st_["z"] - st_["y"]
        st_["lam"] = st_["lam"] + rho * r
        x = np.zeros(N)
        x[B] = st_["x0"]
        x[C] = st_["u"]
        cost = sg * M.objective(b, x)
        viol = 0.0
        for c in b["lcs"] + b["qcs"]:
            d = M.ev_lin(c["lin"], x) + M.ev_quad(c.get("quad", []), x) - c["r"]
            viol += abs(d) if c["s"] == "==" else max(d, 0) if c["s"] == "<=" else max(-d, 0)
        prim = float(np.linalg.norm(r))
        zp = st_["zprev"] if st_["it"] else np.zeros(len(B))
        dual = float(rho * np.linalg.norm(st_["z"] - zp))
        st_["log"].append({"x": x, "x0": st_["x0"], "u": st_["u"], "z": st_["z"], "y": st_["y"], "cost": cost, "viol": viol,
                           "merit": cost + prm["mu_merit"] * viol, "res": prim, "dual": dual, "lam": float(np.linalg.norm(st_["lam"]))})
        if prm["vary_rho"] == UPDATE_RHO_BY_TEN_PERCENT:
            if rho < 1e10:
                st_["rho"] = rho * 1.1
        elif prim > prm["mu_res"] * dual:
            st_["rho"] = rho * prm["tau_incr"]
        elif dual > prm["mu_res"] * prim:
            st_["rho"] = rho / prm["tau_decr"]
        if prim <= prm["tol"]:
            st_["done"] = True
        st_["it"] += 1
        st_["phase"] = "step1"

    reset()
    if s["late"]:
        opt = ADMMOptimizer(Recorder(qubo), Recorder(cont))
        opt.parameters = ADMMParameters(**given)
    else:
        opt = ADMMOptimizer(qubo_optimizer=Recorder(qubo), continuous_optimizer=Recorder(cont), params=ADMMParameters(**given))
    for rep in range(2 if s["again"] else 1):
        if rep:
            reset()  # a second run of the same optimizer starts afresh
        res = opt.solve(qp)
        log = st_["log"]
        ctx.check(st_["done"] or len(log) == limit, "iterations continue until the residual is small or a limit is reached",
                  iterations=len(log), maxiter=prm["maxiter"])
        best = min(e["merit"] for e in log)
        tol = 1e-9 * max(1.0, abs(best))
        cand = [list(conv.interpret(e["x"])) for e in log if e["merit"] <= best + tol]
        x = [float(v) for v in res.x]
        ctx.check(any(max([abs(a - c) for a, c in zip(x, y)] + [0]) <= 1e-9 for y in cand), "the returned point is the iterate of least merit",
                  x=x, best=cand, merits=[e["merit"] for e in log])
        ctx.close(res.fval, M.objective(p, x), "fval is the objective value of x")
        ok = M.feasible(p, x)
        ctx.equal(res.status, OptimizationResultStatus.SUCCESS if ok else OptimizationResultStatus.INFEASIBLE, "status", x=x)
        ctx.equal([v.name for v in res.variables], [v["n"] for v in p["vars"]], "variables of the result")
        hist = res.state
        for attr, key in (("cost_iterates", "cost"), ("residuals", "res"), ("dual_residuals", "dual"), ("cons_r", "viol"), ("merits", "merit"), ("lambdas", "lam")):
            ctx.all_close(getattr(hist, attr), [e[key] for e in log], "history " + attr, tol=1e-7)
        for attr, key in (("x0_saved", "x0"), ("u_saved", "u"), ("z_saved", "z"), ("y_saved", "y")):
            got = [list(map(float, v)) for v in getattr(hist, attr)]
            ctx.equal(got, [list(map(float, e[key])) for e in log], "history " + attr)
        ctx.equal(M.snapshot(qp), snap, "the given problem is not changed")
    ctx.label("iterations={}".format(len(log)), "3-block" if prm["three_block"] else "2-block", "warm" if s["warm"] else "cold",
              "stopped" if st_["done"] else "maxiter", "feasible" if ok else "infeasible")
    ctx.nontrivial(len(log) >= 2 and bool(B) and any(e["res"] > 0 for e in log))


@st.composite
def large_case(draw):
    s = draw(trace_case())
    s["p"] = None
    s["b"] = draw(G.large(types=draw(st.sampled_from(["BBIC", "BC", "BBBI"])), min_n=6, max_n=10, max_lcs=6, max_qcs=2, kinds=["int", "dyadic", "rough"], range=7, inf=True))
    return s


def check_large(s, ctx):
    p = G.expand(s["b"])
    disc = [v["t"] != "C" for v in p["vars"]]
    p["quad"] = [[i, j, v] for i, j, v in p["quad"] if disc[i] == disc[j]]
    drop_constant(p)
    ctx.label(s["b"]["kind"])
    check_trace(dict(s, p=p), ctx)


@st.composite
def solve_case(draw):
    p = draw(G.problem(types="BBBIC", min_n=1, max_n=4, max_range=3, max_lcs=2, allow_inf=False))
    disc = [v["t"] != "C" for v in p["vars"]]
    drop_constant(p)
    # convex in the continuous variables
    p["quad"] = [[i, j, v] for i, j, v in p["quad"] if disc[i] and disc[j]]
    s = M.sgn(p)
    p["quad"] += [[i, i, s * draw(st.integers(1, 4))] for i in range(len(disc)) if not disc[i]]
    return {"p": p, "three": draw(st.booleans()), "maxiter": draw(st.integers(1, 6)), "warm": draw(st.booleans()),
            "rho": draw(st.sampled_from([10, 1001, 10000])), "qubo": draw(st.sampled_from(["brute", "brute", "brute", "eigen"])), "vary": draw(st.integers(0, 1))}


class Brute(OptimizationAlgorithm):
    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        _, arg = M.brute(M.read(problem))
        x = [float(v) for v in sorted(arg)[0]]
        return OptimizationResult(x=x, fval=problem.objective.evaluate(x), variables=problem.variables,
                                  status=OptimizationResultStatus.SUCCESS)


def check_solve(s, ctx):
    from qiskit.algorithms import NumPyMinimumEigensolver

    p = s["p"]
    qp = M.build(p)
    snap = M.snapshot(qp)
    qubo = Brute() if s["qubo"] == "brute" else MinimumEigenOptimizer(NumPyMinimumEigensolver())
    opt = ADMMOptimizer(qubo, SlsqpOptimizer(), ADMMParameters(rho_initial=s["rho"], maxiter=s["maxiter"], three_block=s["three"], warm_start=s["warm"], vary_rho=s["vary"]))
    res = opt.solve(qp)
    x = [float(v) for v in res.x]
    ctx.equal(len(x), len(p["vars"]), "length of x")
    if s["warm"] and any(v["t"] != "C" for v in p["vars"]):
        pass  # variables left out of the first block keep fractional warm-start values
    else:
        for v, a in zip(p["vars"], x):
            if v["t"] != "C":
                ctx.check(float(a).is_integer() and v["l"] <= a <= v["u"], "discrete variables take values of their domain", var=v, value=a)
    ctx.close(res.fval, M.objective(p, x), "fval is the objective value of x", tol=1e-7)
    ok, maybe = M.feasible(p, x), M.feasible(p, x, 1e-6)
    if ok:
        ctx.equal(res.status, OptimizationResultStatus.SUCCESS, "status of a feasible point", x=x)
    elif not maybe:
        ctx.equal(res.status, OptimizationResultStatus.INFEASIBLE, "status of an infeasible point", x=x)
    h = res.state
    k = len(h.merits)
    ctx.check(1 <= k <= s["maxiter"], "number of iterations", iterations=k)
    m = M.sgn(p) * M.objective(p, x)
    viol = 0.0
    for c in p["lcs"]:
        d = M.ev_lin(c["lin"], x) - c["r"]
        viol += abs(d) if c["s"] == "==" else max(d, 0) if c["s"] == "<=" else max(-d, 0)
    ctx.close(m + 1000 * viol, min(h.merits), "the merit of x is the least merit", tol=1e-6)
    ctx.equal(M.snapshot(qp), snap, "the given problem is not changed")
    ctx.label(s["qubo"], "feasible" if ok else "infeasible", "iterations={}".format(k))
    ctx.nontrivial(bool(p["lcs"]) or any(v["t"] != "C" for v in p["vars"]))


@st.composite
def reject_case(draw):
    p = draw(G.problem(types="BIC", min_n=2, max_n=4, max_lcs=1, max_qcs=1, allow_inf=False))
    drop_constant(p)
    return {"p": p, "pair": [draw(st.integers(0, 3)), draw(st.integers(0, 3))], "v": draw(st.one_of(G.nz_ints, st.sampled_from([1e-6, -1e-9, 1 / 3]))),
            "pair2": draw(st.one_of(st.none(), st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list)))}


def check_reject(s, ctx):
    p = s["p"]
    n = len(p["vars"])
    i, j = s["pair"][0] % n, s["pair"][1] % n
    p["quad"].append([i, j, s["v"]])
    if s["pair2"]:  # a second coupling of the opposite sign
        p["quad"].append([s["pair2"][0] % n, s["pair2"][1] % n, -s["v"]])
    disc = [v["t"] != "C" for v in p["vars"]]
    mixed = any(v != 0 and disc[a] != disc[c] for (a, c), v in M.merge_quad(p["quad"]).items())
    qp = M.build(p)
    opt = ADMMOptimizer(Brute(), Brute())
    ctx.equal(bool(opt.is_compatible(qp)), not mixed, "compatible exactly if discrete and continuous variables are not multiplied in the objective",
              types=[v["t"] for v in p["vars"]], quad=p["quad"])
    if mixed:
        ctx.raises(QiskitOptimizationError, lambda: opt.solve(qp), "incompatible problems are rejected")
        ctx.nontrivial()
    ctx.label("mixed" if mixed else "separable")


SUBCHECKS = [
    Sub("trace", trace_case(), check_trace, 2000, 25000),
    Sub("large", large_case(), check_large, 160, 2500),
    Sub("solve", solve_case(), check_solve, 240, 3000),
    Sub("reject", reject_case(), check_reject, 500, 3000),
]
