"""C23: a result object says the same thing through every access path."""
import warnings

import numpy as np
from hypothesis import strategies as st

from qiskit_optimization import QiskitOptimizationError, QuadraticProgram
from qiskit_optimization.algorithms import (
    MinimumEigenOptimizationResult,
    OptimizationAlgorithm,
    OptimizationResult,
    OptimizationResultStatus,
    SolutionSample,
)
from qiskit_optimization.converters import (
    InequalityToEquality,
    IntegerToBinary,
    LinearEqualityToPenalty,
    QuadraticProgramToQubo,
)

from checks.c10 import prog
from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C23"
RULE = (
    "views: results over 1-6 variables with arbitrary names (or no solution at all), values as list or array, any "
    "status, with and without generated samples (also with probabilities that do not add up); every access path, all "
    "valid and invalid keys and the correlation matrix are compared with the inputs. custom: a user-defined algorithm "
    "(subclass) that converts a program, answers in the converted space and reports through the base class. "
    "Non-trivial: two or more variables (views); at least one converted sample that several raw samples map to, or a "
    "constraint (custom)."
)
ST = [OptimizationResultStatus.SUCCESS, OptimizationResultStatus.FAILURE, OptimizationResultStatus.INFEASIBLE]


@st.composite
def view_case(draw):
    vs = draw(G.variables(min_n=1, max_n=6))
    n = len(vs)
    k = draw(st.sampled_from([0, 0, 1, 2, 5]))
    binary = draw(st.booleans())
    val = st.integers(0, 1) if binary else G.dyadic
    return {
        "vars": vs,
        "x": draw(st.one_of(st.none(), st.lists(val, min_size=n, max_size=n), st.lists(val, min_size=n, max_size=n))),
        "arr": draw(st.booleans()),
        "fval": draw(G.dyadic),
        "status": draw(st.integers(0, 2)),
        "samples": [
            [draw(st.lists(st.integers(0, 1) if binary else st.sampled_from([0, 1, 2, 2.5]), min_size=n, max_size=n)),
             draw(G.dyadic), draw(st.integers(0, 8)) / 8, draw(st.integers(0, 2))]
            for _ in range(k)
        ],
        "normalise": draw(st.booleans()),
        "cls": draw(st.sampled_from(["base", "base", "eigen"])),
        "size": draw(st.sampled_from([-1, 1])),
    }


def check_views(s, ctx):
    qp = QuadraticProgram()
    for v in s["vars"]:
        M.add_var(qp, v)
    names = [v["n"] for v in s["vars"]]
    n = len(names)
    x = s["x"]
    given = None if x is None else (np.array(x, dtype=float) if s["arr"] else list(x))
    probs = [q[2] for q in s["samples"]]
    if s["normalise"] and sum(probs) > 0:
        probs = [q / sum(probs) for q in probs]
    samples = [SolutionSample(np.array(q[0]), q[1], pr, ST[q[3]]) for q, pr in zip(s["samples"], probs)]
    status = ST[s["status"]]
    cls = OptimizationResult if s["cls"] == "base" else MinimumEigenOptimizationResult
    raw = {"raw": 1}
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        if cls is OptimizationResult:
            res = cls(x=given, fval=s["fval"], variables=qp.variables, status=status, raw_results=raw,
                      samples=samples or None)
        else:
            res = cls(given, s["fval"], qp.variables, status, samples or None, "solver", samples)
            ctx.equal(res.min_eigen_solver_result, "solver", "min_eigen_solver_result")
            ctx.equal(res.raw_samples, samples, "raw samples")
    if samples:
        ok = abs(sum(probs) - 1) < 1e-9
        ctx.equal(any("probabilit" in str(w.message) for w in caught), not ok,
                  "a warning exactly when the probabilities do not add up", probs=probs)
        ctx.equal(len(res.samples), len(samples), "number of samples")
        for a, b in zip(res.samples, samples):
            ctx.check(a.x is b.x or list(a.x) == list(b.x), "sample x")
            ctx.equal((a.fval, a.probability, a.status), (b.fval, b.probability, b.status), "sample content")
    else:
        ctx.equal(len(res.samples), 1, "without samples the solution itself is the only sample")
        one = res.samples[0]
        ctx.equal((one.fval, one.probability, one.status), (s["fval"], 1.0, status), "default sample")
        if x is None:
            ctx.check(one.x is None, "default sample without a solution")
        else:
            ctx.equal([float(a) for a in one.x], [float(a) for a in x], "default sample x")
    ctx.equal(res.fval, s["fval"], "fval")
    ctx.equal(res.status, status, "status")
    if cls is OptimizationResult:
        ctx.equal(res.raw_results, raw, "raw results")
    ctx.equal(res.variable_names, names, "variable names")
    ctx.equal([v.name for v in res.variables], names, "variables")
    ctx.check(status.name in repr(res) and str(s["fval"]) in repr(res), "the text shows value and status", text=repr(res))
    ctx.label("none" if x is None else "solution", cls.__name__)
    ctx.nontrivial(n >= 2)
    if x is None:
        ctx.check(res.x is None and res.variables_dict is None, "no solution")
    else:
        ctx.check(isinstance(res.x, np.ndarray), "x is an array")
        ctx.equal([float(a) for a in res.x], [float(a) for a in x], "x")
        ctx.equal({k: float(v) for k, v in res.variables_dict.items()}, dict(zip(names, map(float, x))), "variables_dict")
        ctx.equal(list(res.variables_dict), names, "order of variables_dict")
        for i, nm in enumerate(names):
            ctx.equal(float(res[i]), float(x[i]), "value by index")
            ctx.equal(float(res[nm]), float(x[i]), "value by name")
        for bad in (n, n + 3, -n - 1):
            ctx.raises(IndexError, lambda: res[bad], "index out of range", index=bad)
        free = [q for q in ("nope", "x_unknown", "", "0") if q not in names]
        for bad in free:
            ctx.raises(KeyError, lambda: res[bad], "unknown name", name=bad)
        for bad in (1.0, None, (0,), [0]):
            ctx.raises(TypeError, lambda: res[bad], "wrong key type", key=repr(bad))
        wrong = list(x) + [0] if s["size"] > 0 else list(x)[:-1]
        ctx.raises(QiskitOptimizationError, lambda: OptimizationResult(wrong, 0.0, qp.variables, status),
                   "a solution of the wrong size must be rejected", size=len(wrong))
    # correlations
    src = [(q[0], pr) for q, pr in zip(s["samples"], probs)] if samples else ([(x, 1.0)] if x is not None else [])
    if src:
        corr = np.asarray(res.get_correlations())
        ctx.equal(corr.shape, (n, n), "shape of the correlations")
        for i in range(n):
            for j in range(i):
                want = sum(pr if b[i] == b[j] else -pr for b, pr in src)
                ctx.close(corr[i, j], want, "correlation", i=i, j=j)
            for j in range(i, n):
                ctx.equal(float(corr[i, j]), 0.0, "upper triangle of the correlations")
    # what the result was made from is edited later
    views = lambda: ([v.name for v in res.variables], list(res.variable_names), None if res.x is None else [float(a) for a in res.x],  # noqa
                     None if x is None else [float(res[i]) for i in range(n)], None if x is None else [float(res[nm]) for nm in names],
                     len(res.samples), None if res.samples[0].x is None else [float(a) for a in res.samples[0].x])
    before = views()
    if x is not None:
        for i in range(n):
            given[i] = 77
    del samples[:]
    qp.clear()
    qp.binary_var("another")
    ctx.equal(views(), before, "a result does not change when the program, point or list it was made from is edited")


CONV = {
    "qubo": lambda: [QuadraticProgramToQubo()],
    "list": lambda: [InequalityToEquality(mode="integer"), IntegerToBinary(), LinearEqualityToPenalty()],
    "partial": lambda: [IntegerToBinary()],
    "slack": lambda: [InequalityToEquality()],
    "none": lambda: [],
}


class Custom(OptimizationAlgorithm):
    """a user-defined optimizer written against the base class, as the tutorials show it"""

    def __init__(self, convs, answer):
        self.convs, self.answer = convs, answer
        self.seen = None

    def get_compatibility_msg(self, problem):
        return "too many variables. " if problem.get_num_vars() > 4 else ""

    def solve(self, problem):
        self._verify_compatibility(problem)
        conv = self._convert(problem, self.convs if len(self.convs) != 1 else self.convs[0])
        self.seen = conv
        raw = self.answer(conv)
        samples = self._interpret_samples(problem, raw, self.convs)
        return self._interpret(x=raw[0].x, problem=problem, converters=self.convs, samples=samples, raw_results=raw)


@st.composite
def custom_case(draw):
    return {
        "p": draw(prog()),
        "conv": draw(st.sampled_from(sorted(CONV))),
        "wide": draw(st.sampled_from([None, None, 12, 111])),
        "cont": draw(st.booleans()),
        "picks": draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=8)),
        "w": draw(st.lists(st.integers(1, 5), min_size=8, max_size=8)),
    }


def check_custom(s, ctx):
    p = s["p"]
    if s.get("wide"):
        # integer variables with many values: what is written alike need not be alike
        p = dict(p, vars=[dict(v, l=0, u=s["wide"]) if v["t"] == "I" else v for v in p["vars"]])
    if s["cont"] and s["conv"] in ("none", "partial", "slack"):
        # values of continuous variables may differ by a fraction only
        p = dict(p, vars=[dict(v, t="C") if v["t"] == "I" or i % 2 else v for i, v in enumerate(p["vars"])])
    qp = M.build(p)
    snap = M.snapshot(qp)
    n = len(p["vars"])
    names = [v["n"] for v in p["vars"]]

    def answer(conv):
        out = []
        tot = sum(s["w"][: len(s["picks"])])
        for pick, w in zip(s["picks"], s["w"]):
            x, r = [], pick
            for v in conv.variables:
                if v.vartype.name == "CONTINUOUS":
                    x.append(v.lowerbound + (v.upperbound - v.lowerbound) * (r % 3 + r // 3 % 5 / 1024) / 4)
                    r = r // 15 + 7 * pick
                    continue
                lo, hi = int(np.ceil(v.lowerbound)), int(np.floor(v.upperbound))
                k = hi - lo + 1
                few = [a for a in (0, 1, 10, 11, 12, 101, 110, 111, -1) if lo <= a <= hi]
                x.append(few[r % len(few)] if k > 9 and few else lo + r % k)
                r = r // k + 7 * pick
            x = np.array(x)
            out.append(SolutionSample(x, conv.objective.evaluate(x), w / tot, OptimizationResultStatus.SUCCESS))
        return out

    opt = Custom(CONV[s["conv"]](), answer)
    if not all(hasattr(opt, "_" + a) for a in ("verify_compatibility", "convert", "interpret", "interpret_samples",
                                               "prepare_converters")):
        ctx.discard()  # the base class offers other helpers
    if n > 4:
        ctx.check(not opt.is_compatible(qp), "an incompatibility message means incompatible")
        ctx.raises(QiskitOptimizationError, lambda: opt.solve(qp), "incompatible programs are rejected")
        ctx.nontrivial()
        return
    ctx.check(opt.is_compatible(qp), "no message means compatible")
    res = opt.solve(qp)
    ctx.equal(M.snapshot(qp), snap, "the program must not change")
    raw = res.raw_results
    # the chain interpreted backwards, one converter at a time, by a fresh chain
    convs = CONV[s["conv"]]()
    cur = qp
    for c in convs:
        cur = c.convert(cur)
    want = {}
    first = None
    for sm in raw:
        x = sm.x
        for c in reversed(convs):
            x = c.interpret(x)
        key = tuple(float(a) for a in x)
        first = first or key
        want[key] = want.get(key, 0) + sm.probability
    ctx.equal(tuple(float(a) for a in res.x), first, "x is the interpreted answer")
    ctx.equal(res.variable_names, names, "variable names")
    ctx.close(res.fval, M.objective(p, first), "fval", tol=1e-8)
    good = lambda x: ST[0] if M.feasible(p, x) else ST[2]
    ctx.equal(res.status, good(first), "status")
    got = {}
    for sm in res.samples:
        key = tuple(float(a) for a in sm.x)
        ctx.check(key not in got, "samples are distinct", x=key)
        got[key] = sm.probability
        ctx.close(sm.fval, M.objective(p, key), "fval of a sample", x=key, tol=1e-8)
        ctx.equal(sm.status, good(key), "status of a sample", x=key)
    ctx.equal(sorted(got), sorted(want), "interpreted samples")
    for k in want:
        ctx.close(got[k], want[k], "probability of a sample", x=k)
    keys = [(sm.status.value, M.sgn(p) * sm.fval) for sm in res.samples]
    for a, b in zip(keys, keys[1:]):
        ctx.check(a[0] < b[0] or (a[0] == b[0] and a[1] <= b[1] + 1e-9 * max(1, abs(b[1]))),
                  "samples are sorted: feasible first, best first", keys=keys)
    ctx.raises(TypeError, lambda: opt._interpret(raw[0].x, qp, ["not a converter"]), "converters are type checked")
    ctx.raises(TypeError, lambda: opt._prepare_converters(["not a converter"]), "converters are type checked")
    ctx.raises(QiskitOptimizationError, lambda: opt._interpret(raw[0].x, qp, [], result_class=dict),
               "result classes are checked")
    ctx.label(s["conv"], "merged" if len(want) < len(raw) else "distinct")
    ctx.nontrivial(len(want) < len(raw) or bool(p["lcs"]))


SUBCHECKS = [
    Sub("views", view_case(), check_views, 2500, 40000),
    Sub("custom", custom_case(), check_custom, 1500, 20000),
]
