"""C13: RecursiveMinimumEigenOptimizer: reductions keep the problem, exact inner solvers give the optimum."""
from itertools import product

import numpy as np
from hypothesis import strategies as st
from qiskit.algorithms import NumPyMinimumEigensolver

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import (
    IntermediateResult,
    MinimumEigenOptimizer,
    OptimizationAlgorithm,
    OptimizationResult,
    OptimizationResultStatus,
    RecursiveMinimumEigenOptimizer,
    SolutionSample,
)

from checks.c10 import prog
from checks.c12 import converters, verify_result
from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C13"
RULE = (
    "exact: integer programs (also constrained) solved recursively with an exact inner optimizer (NumPy eigensolver or "
    "enumeration), any min_num_vars and history setting, against enumeration. reduce: unconstrained binary programs with an "
    "inner optimizer that returns generated sample distributions; every reduced program, every replacement and the "
    "unrolled result are recomputed. Non-trivial: at least one replacement was made and the objective is not constant."
)
SUCCESS = OptimizationResultStatus.SUCCESS
INFEASIBLE = OptimizationResultStatus.INFEASIBLE
HIST = {"no": IntermediateResult.NO_ITERATIONS, "last": IntermediateResult.LAST_ITERATION, "all": IntermediateResult.ALL_ITERATIONS}


@st.composite
def exact_case(draw):
    conv = draw(st.sampled_from(["default", "list"]))
    return {"ps": [draw(prog(fix=conv != "list")) for _ in range(draw(st.sampled_from([1, 1, 2])))],
            "min": draw(st.integers(1, 4)), "hist": draw(st.sampled_from(["no", "last", "all"])),
            "inner": draw(st.sampled_from(["numpy", "numpy", "brute"])),
            "last": draw(st.sampled_from(["default", "brute"])),
            "conv": conv}


def check_exact(s, ctx):
    inner = MinimumEigenOptimizer(NumPyMinimumEigensolver()) if s["inner"] == "numpy" else Brute()
    opt = RecursiveMinimumEigenOptimizer(
        inner, min_num_vars=s["min"], min_num_vars_optimizer=None if s["last"] == "default" else Brute(),
        history=HIST[s["hist"]], converters=converters(s["conv"]),
    )
    for p in s["ps"]:
        qp = M.build(p)
        snap = M.snapshot(qp)
        res = opt.solve(qp)
        ctx.equal(M.snapshot(qp), snap, "the program must not change")
        p2 = p
        x = verify_result(ctx, p2, qp, res)
        best, arg = M.brute(p)
        if best is None:
            ctx.equal(res.status, INFEASIBLE, "an infeasible program is reported as such")
            ctx.label("infeasible")
            continue
        ctx.equal(res.status, SUCCESS, "a feasible program is solved", x=x)
        ctx.close(res.fval, best, "with an exact inner optimizer the optimum is found", x=x, tol=1e-7)
        nrep = len(res.replacements)
        hist, last = res.history
        ctx.equal(len(hist), nrep if s["hist"] == "all" else 0, "length of the history")
        ctx.equal(last is None, s["hist"] == "no", "result of the last step")
        if s["hist"] == "all":
            for h in hist:
                ctx.close(h.fval, best, "value of an intermediate result", tol=1e-7)
                ctx.equal(h.status, SUCCESS, "status of an intermediate result")
        if last is not None:
            ctx.close(last.fval, best, "value of the last result", tol=1e-7)
        ctx.nontrivial(nrep and len({M.objective(p, y) for y in M.points(p)}) > 1)
        ctx.label("reps={}".format(nrep))
    ctx.label(s["inner"], s["hist"])


class Inner(OptimizationAlgorithm):
    """returns the generated samples, cut to the size of the program"""

    def __init__(self, dists):
        self.dists = dists
        self.log = []

    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        n = problem.get_num_vars()
        dist = self.dists[len(self.log) % len(self.dists)]
        weight = {}
        for i, w in dist:
            z = tuple((i >> k) & 1 for k in range(n))
            weight[z] = weight.get(z, 0) + w
        tot = sum(weight.values())
        samples = [SolutionSample(np.array(z, dtype=float), problem.objective.evaluate(list(z)), w / tot, SUCCESS)
                   for z, w in weight.items()]
        self.log.append((M.read(problem), {z: w / tot for z, w in weight.items()}))
        return OptimizationResult(samples[0].x, samples[0].fval, problem.variables, SUCCESS, samples=samples)


class Brute(OptimizationAlgorithm):
    def __init__(self):
        self.log = []

    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        d = M.read(problem)
        self.log.append(d)
        best, arg = M.brute(d)
        return OptimizationResult(np.array(sorted(arg)[0], dtype=float), best, problem.variables, SUCCESS)


@st.composite
def reduce_case(draw):
    p = draw(G.problem(types="B", min_n=2, max_n=6, value=draw(st.sampled_from([G.nz_ints, G.nz_dyadic])), max_lcs=0, max_quad=10))
    # some coefficients in a smaller unit than the others (all sums stay exact)
    for t in p["lin"] + p["quad"]:
        t[-1] *= 2.0 ** -draw(st.sampled_from([0, 0, 0, 0, 6, 9, 12, 16]))
    entry = st.tuples(st.integers(0, 63), st.integers(1, 5))
    return {"p": p, "min": draw(st.integers(1, 3)), "dists": draw(st.lists(st.lists(entry, min_size=1, max_size=4), min_size=1, max_size=5)),
            "conv": draw(st.sampled_from(["default", "none"])), "hist": draw(st.sampled_from(["no", "last", "all"]))}


def unroll(y, order, reps, names):
    """values of all variables from those of a reduced program"""
    val = dict(y)
    for nm, (src, sg) in reversed(reps):
        val[nm] = val[src] if sg == 1 else 1 - val[src]
    return [val[nm] for nm in names]


def check_reduce(s, ctx):
    p = s["p"]
    qp = M.build(p)
    snap = M.snapshot(qp)
    inner, last = Inner(s["dists"]), Brute()
    opt = RecursiveMinimumEigenOptimizer(inner, min_num_vars=s["min"], min_num_vars_optimizer=last, history=HIST[s["hist"]],
                                         converters=None if s["conv"] == "default" else [])
    res = opt.solve(qp)
    ctx.equal(M.snapshot(qp), snap, "the program must not change")
    names = [v["n"] for v in p["vars"]]
    n = len(names)
    want_reps = max(0, n - s["min"])
    reps = list(res.replacements.items())
    ctx.equal(len(reps), want_reps, "one replacement per removed variable")
    ctx.equal(len(inner.log), want_reps, "one inner solve per replacement")
    ctx.equal(len(last.log), 1, "one final solve")
    stages = [d for d, _ in inner.log] + last.log
    alive = list(names)
    for k, d in enumerate(stages):
        dn = [v["n"] for v in d["vars"]]
        ctx.equal(dn, alive, "variables of a reduced program", stage=k)
        ctx.check(all((v["t"], v["l"], v["u"]) == ("B", 0, 1) for v in d["vars"]), "reduced programs are binary", stage=k, vars=d["vars"])
        ctx.equal(d["sense"], p["sense"], "sense of a reduced program")
        for y in product((0, 1), repeat=len(dn)) if len(dn) <= 6 else [tuple(y[: len(dn)]) for y in s["ys"]]:
            x = unroll(dict(zip(dn, y)), None, reps[:k], names)
            ctx.close(M.objective(d, y), M.objective(p, x), "a reduced program has the objective of the unrolled point",
                      stage=k, y=y, x=x, reps=reps[:k], tol=2e-9)
        if k < want_reps:
            nm, (src, sg) = reps[k]
            ctx.check(nm in alive and src in alive and nm != src and sg in (1, -1), "replacement", rep=reps[k], alive=alive)
            i, j = dn.index(nm), dn.index(src)
            dist = inner.log[k][1]

            def corr(a, b):
                return sum(q if z[a] == z[b] else -q for z, q in dist.items())

            strongest = max(abs(corr(a, b)) for a in range(len(dn)) for b in range(a))
            c = corr(i, j)
            ctx.close(abs(c), strongest, "the strongest correlation is used", stage=k, tol=1e-7)
            if abs(c) > 1e-9:
                ctx.equal(sg, 1 if c > 0 else -1, "sign of the replacement follows the correlation", stage=k, c=c)
            alive.remove(nm)
    x = verify_result(ctx, p, qp, res)
    for nm, (src, sg) in reps:
        a, b = x[names.index(nm)], x[names.index(src)]
        ctx.equal(a, b if sg == 1 else 1 - b, "the result obeys the replacements")
    best = M.brute(last.log[0])[0]
    ctx.close(res.fval, best, "the result is that of the final optimizer", tol=1e-8)
    ctx.equal(len(res.history[0]), want_reps if s["hist"] == "all" else 0, "history")
    ctx.nontrivial(want_reps and len({M.objective(p, y) for y in M.points(p)} if n <= 6 else p["lin"] + p["quad"]) > 1)
    ctx.label("reps={}".format(want_reps), "conv=" + s["conv"], "neg" if any(r[1][1] == -1 for r in reps) else "pos")


@st.composite
def large_case(draw):
    return {"b": draw(G.large(types="B", min_n=7, max_n=12, max_lcs=0, kinds=["int", "dyadic", "rough", "tiny"])), "min": draw(st.integers(1, 8)),
            "seed": draw(st.integers(0, 10 ** 6)), "conv": draw(st.sampled_from(["default", "none"])), "hist": draw(st.sampled_from(["no", "last", "all"]))}


def check_large(s, ctx):
    """seven to twelve variables, many samples"""
    import random

    rnd = random.Random(s["seed"])
    p = G.expand(s["b"])
    dists = [[[rnd.randrange(2 ** 12), rnd.choice([1, 2, 5, 40])] for _ in range(rnd.choice([1, 3, 10, 30]))] for _ in range(rnd.randint(1, 12))]
    ys = [[rnd.randint(0, 1) for _ in range(12)] for _ in range(24)]
    check_reduce({"p": p, "min": s["min"], "dists": dists, "conv": s["conv"], "hist": s["hist"], "ys": ys}, ctx)


@st.composite
def bad_case(draw):
    return {"p": draw(G.problem(types="BIIC", max_n=3, max_range=3, max_lcs=2, max_qcs=1, allow_inf=False,
                                cvalue=draw(st.sampled_from([G.nz_ints, G.nz_dyadic])))), "min": draw(st.integers(-2, 0))}


def check_bad(s, ctx):
    p = s["p"]
    frac = any(not float(v).is_integer() for c in p["lcs"] for v in M.merge_lin(c["lin"]).values())
    bad = frac or any(v["t"] == "C" for v in p["vars"]) or bool(p["qcs"])
    if not bad:
        ctx.discard()
    qp = M.build(p)
    opt = RecursiveMinimumEigenOptimizer(Inner([[[0, 1]]]))
    ctx.check(not opt.is_compatible(qp) and opt.get_compatibility_msg(qp), "incompatible")
    ctx.raises(QiskitOptimizationError, lambda: opt.solve(qp), "incompatible programs must be rejected")
    ctx.raises(Exception, lambda: RecursiveMinimumEigenOptimizer(Inner([[[0, 1]]]), min_num_vars=s["min"]), "min_num_vars < 1")
    ctx.nontrivial()


SUBCHECKS = [
    Sub("exact", exact_case(), check_exact, 1000, 12000),
    Sub("reduce", reduce_case(), check_reduce, 1500, 20000),
    Sub("large", large_case(), check_large, 200, 3000),
    Sub("incompatible", bad_case(), check_bad, 150, 600),
]
