"""C12: MinimumEigenOptimizer: exact solvers give exact optima; samples are what the eigenstate says."""
import numpy as np
from hypothesis import strategies as st
from qiskit.algorithms import MinimumEigensolver, MinimumEigensolverResult, NumPyMinimumEigensolver
from qiskit.opflow import DictStateFn, StateFn, VectorStateFn

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import MinimumEigenOptimizer, OptimizationResultStatus
from qiskit_optimization.converters import (
    InequalityToEquality,
    IntegerToBinary,
    LinearEqualityToPenalty,
    QuadraticProgramToQubo,
)

from checks.c10 import prog, slack_bits
from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C12"
RULE = (
    "Integer programs with linear constraints (up to 11 QUBO variables). exact: solved with NumPyMinimumEigensolver and "
    "by enumeration, with default, single and listed converters, one optimizer reused for several programs. samples: a "
    "stub eigensolver returns a generated eigenstate as vector, VectorStateFn, DictStateFn, amplitude dictionary or "
    "counts, and every reported sample is recomputed (wide: integer variables with up to 128 values)."
    " Non-trivial: exact - the constraints exclude some points and "
    "leave some, or the objective is not constant; samples - at least two basis states carry weight."
)
SUCCESS = OptimizationResultStatus.SUCCESS
INFEASIBLE = OptimizationResultStatus.INFEASIBLE
FAILURE = OptimizationResultStatus.FAILURE


def verify_result(ctx, p, qp, res, exact=False):
    """what every result promises"""
    names = [v["n"] for v in p["vars"]]
    x = [float(a) for a in res.x]
    ctx.equal(len(x), len(names), "length of x")
    ctx.equal(res.variable_names, names, "variable names")
    ctx.equal([v.name for v in res.variables], names, "variables")
    ctx.close(res.fval, M.objective(p, x), "fval is the objective at x", x=x, tol=1e-8)
    ctx.check(all(v["l"] <= a <= v["u"] and a == int(a) for v, a in zip(p["vars"], x)), "x is an integer point", x=x)
    ctx.equal(res.status, SUCCESS if M.feasible(p, x) else INFEASIBLE, "status says whether x is feasible", x=x)
    ctx.equal({k: float(v) for k, v in res.variables_dict.items()}, dict(zip(names, x)), "variables_dict")
    for i, nm in enumerate(names):
        ctx.equal((float(res[i]), float(res[nm])), (x[i], x[i]), "lookup by index and name")
    return x


def verify_samples(ctx, p, samples, tol=1e-8):
    seen = set()
    for sm in samples:
        x = tuple(float(a) for a in sm.x)
        ctx.check(x not in seen, "samples are distinct", x=x)
        seen.add(x)
        ctx.close(sm.fval, M.objective(p, x), "fval of a sample", x=x, tol=tol)
        ctx.equal(sm.status, SUCCESS if M.feasible(p, x) else INFEASIBLE, "status of a sample", x=x)
        ctx.check(0 <= sm.probability <= 1 + 1e-9, "probability of a sample", p=sm.probability)
    s = M.sgn(p)
    keys = [(sm.status.value, s * sm.fval) for sm in samples]
    for a, b in zip(keys, keys[1:]):
        ctx.check(a[0] < b[0] or (a[0] == b[0] and a[1] <= b[1] + 1e-7 * max(1, abs(b[1]))),
                  "samples are sorted: feasible first, best first", keys=keys)
    return seen


def converters(kind):
    if kind == "default":
        return None
    if kind == "single":
        return QuadraticProgramToQubo()
    if kind == "one":
        return [QuadraticProgramToQubo()]
    return [InequalityToEquality(mode="integer"), IntegerToBinary(), LinearEqualityToPenalty()]


@st.composite
def exact_case(draw):
    conv = draw(st.sampled_from(["default", "default", "single", "one", "list"]))
    return {
        # only the QUBO converter encodes the bounds of binary variables
        "ps": [draw(prog(fix=conv != "list")) for _ in range(draw(st.sampled_from([1, 1, 2])))],
        "conv": conv,
        "pen": draw(st.sampled_from([None, None, 20000.0])),
    }


def check_exact(s, ctx):
    opt = MinimumEigenOptimizer(NumPyMinimumEigensolver(), penalty=s["pen"], converters=converters(s["conv"]))
    for p in s["ps"]:
        qp = M.build(p)
        snap = M.snapshot(qp)
        ctx.check(opt.is_compatible(qp), "an integer program is compatible")
        res = opt.solve(qp)
        ctx.equal(M.snapshot(qp), snap, "the program must not change")
        x = verify_result(ctx, p, qp, res)
        seen = verify_samples(ctx, p, res.samples)
        ctx.check(tuple(x) in seen, "x is one of the samples")
        ctx.close(sum(sm.probability for sm in res.samples), 1, "probabilities add up to one", tol=1e-4)
        ctx.check(res.min_eigen_solver_result is not None, "the eigensolver result is reported")
        best, arg = M.brute(p)
        if best is None:
            ctx.equal(res.status, INFEASIBLE, "an infeasible program is reported as such")
            ctx.label("infeasible")
        else:
            ctx.equal(res.status, SUCCESS, "a feasible program is solved", x=x, optimal=sorted(arg)[:3])
            ctx.close(res.fval, best, "the optimum is found", x=x, tol=1e-8)
            ctx.check(tuple(x) in {tuple(float(a) for a in y) for y in arg}, "x is optimal", x=x)
            nonconst = len({M.objective(p, y) for y in M.points(p)}) > 1
            ctx.nontrivial(nonconst)
        ctx.label(s["conv"], p["sense"])


class Stub(MinimumEigensolver):
    def __init__(self, make):
        self.make = make
        self.calls = 0

    @classmethod
    def supports_aux_operators(cls):
        return True

    def compute_minimum_eigenvalue(self, operator, aux_operators=None):
        self.calls += 1
        res = MinimumEigensolverResult()
        res.eigenvalue = 0
        res.eigenstate = self.make(operator.num_qubits)
        return res


@st.composite
def sample_case(draw):
    p = draw(prog(fix=True))
    k = draw(st.integers(1, 6))
    return {
        "p": p,
        "fmt": draw(st.sampled_from(["vector", "vectorfn", "dictfn", "amplitudes", "complex amplitudes", "counts", "statefn", "none"])),
        "idx": draw(st.lists(st.integers(0, 2 ** 14), min_size=k, max_size=k)),
        "w": draw(st.lists(st.one_of(st.integers(1, 20), st.integers(1, 20), st.sampled_from([1000, 20000])), min_size=k, max_size=k)),
        "ph": draw(st.lists(st.sampled_from([1, -1, "i", "-i"]), min_size=k, max_size=k)),
        "late": draw(st.integers(0, 3)) == 2,
        "pen": draw(st.sampled_from([None, None, 0.5, 3])),
    }


PH = {1: 1, -1: -1, "i": 1j, "-i": -1j}


def check_samples(s, ctx):
    p = s["p"]
    qp = M.build(p)
    ref = QuadraticProgramToQubo(s["pen"])
    qubo = ref.convert(qp)
    d = M.read(qubo)
    n = len(d["vars"])
    if n > 14:
        ctx.discard()
    weight = {}
    phase = {}
    for i, w, ph in zip(s["idx"], s["w"], s["ph"]):
        weight[i % 2 ** n] = w
        phase[i % 2 ** n] = PH[ph]
    tot = sum(weight.values())
    prob = {i: w / tot for i, w in weight.items()}
    bits = {i: "{:b}".format(i).rjust(n, "0") for i in weight}

    def make(nq):
        ctx.equal(nq, n, "number of qubits")
        if s["fmt"] == "none":
            return None
        if s["fmt"] == "counts":
            return {bits[i]: w for i, w in weight.items()}
        if s["fmt"] == "amplitudes":
            return {bits[i]: float(np.sqrt(q)) for i, q in prob.items()}
        if s["fmt"] == "complex amplitudes":
            return {bits[i]: complex(phase[i] * np.sqrt(q)) for i, q in prob.items()}
        vec = np.zeros(2 ** n, dtype=complex)
        for i, q in prob.items():
            vec[i] = phase[i] * np.sqrt(q)
        if s["fmt"] == "vector":
            return vec
        if s["fmt"] == "vectorfn":
            return VectorStateFn(vec)
        if s["fmt"] == "statefn":
            return StateFn(vec)
        return DictStateFn({bits[i]: complex(phase[i] * np.sqrt(q)) for i, q in prob.items()})

    solver = Stub(make)
    if s.get("late"):  # the solver is exchanged later
        opt = MinimumEigenOptimizer(NumPyMinimumEigensolver(), penalty=s["pen"])
        opt.min_eigen_solver = solver
        ctx.check(opt.min_eigen_solver is solver, "the eigensolver is kept")
    else:
        opt = MinimumEigenOptimizer(solver, penalty=s["pen"])
    snap = M.snapshot(qp)
    res = opt.solve(qp)
    ctx.equal(M.snapshot(qp), snap, "the program must not change")
    ctx.equal(solver.calls, 1, "the eigensolver is asked once")
    if s["fmt"] == "none":
        ctx.equal((res.status, res.x, res.fval), (FAILURE, None, None), "no eigenstate is a failure")
        ctx.label("none")
        return
    # raw samples: the basis states, qubit k is QUBO variable k
    sign = M.sgn(p)
    want = {}
    for i, q in prob.items():
        z = tuple((i >> k) & 1 for k in range(n))
        want[z] = (q, M.objective(d, z))
    got = {tuple(int(a) for a in r.x): r for r in res.raw_samples}
    ctx.equal(len(got), len(res.raw_samples), "raw samples are distinct")
    ctx.equal(set(got), set(want), "raw samples are the basis states of the eigenstate")
    for z, (q, f) in want.items():
        ctx.close(got[z].probability, q, "probability of a raw sample", tol=1e-7, z=z)
        ctx.close(got[z].fval, f, "QUBO value of a raw sample", tol=1e-8, z=z)
    fv = [sign * r.fval for r in res.raw_samples]
    ctx.check(all(a <= b + 1e-7 * max(1, abs(b)) for a, b in zip(fv, fv[1:])), "raw samples are sorted, best first", f=fv)
    # samples: interpreted and merged
    merged = {}
    for z, (q, _) in want.items():
        x = tuple(float(a) for a in ref.interpret(np.array(z)))
        merged[x] = merged.get(x, 0) + q
    seen = verify_samples(ctx, p, res.samples)
    ctx.equal(seen, set(merged), "samples are the interpreted basis states")
    for sm in res.samples:
        ctx.close(sm.probability, merged[tuple(float(a) for a in sm.x)], "probability of a sample", tol=1e-7)
    # the reported solution is the best basis state of the QUBO
    x = verify_result(ctx, p, qp, res)
    best = min(sign * f for _, f in want.values())
    allowed = {tuple(float(a) for a in ref.interpret(np.array(z))) for z, (_, f) in want.items()
               if sign * f <= best + 1e-7 * max(1, abs(best))}
    ctx.check(tuple(x) in allowed, "x is the best basis state", x=x, allowed=allowed)
    # correlations
    corr = res.get_correlations()
    m = len(p["vars"])
    for i in range(m):
        for j in range(i):
            w = sum(q if xx[i] == xx[j] else -q for xx, q in merged.items())
            ctx.close(corr[i, j], w, "correlation", tol=1e-7, i=i, j=j)
    ctx.nontrivial(len(want) > 1)
    ctx.label(s["fmt"], "merged" if len(merged) < len(want) else "plain")


@st.composite
def bad_case(draw):
    return {"p": draw(G.problem(types="BIIC", max_n=3, max_range=3, max_lcs=2, max_qcs=1, allow_inf=False,
                                cvalue=draw(st.sampled_from([G.nz_ints, G.nz_dyadic]))))}


def check_bad(s, ctx):
    p = s["p"]
    frac = any(not float(v).is_integer() for c in p["lcs"] for v in M.merge_lin(c["lin"]).values())
    bad = frac or any(v["t"] == "C" for v in p["vars"]) or bool(p["qcs"])
    if not bad:
        ctx.discard()
    qp = M.build(p)
    opt = MinimumEigenOptimizer(Stub(lambda n: np.eye(2 ** n)[0]))
    ctx.check(not opt.is_compatible(qp) and opt.get_compatibility_msg(qp), "incompatible")
    ctx.raises(QiskitOptimizationError, lambda: opt.solve(qp), "incompatible programs must be rejected")
    ctx.nontrivial()


@st.composite
def large_case(draw):
    return {"b": draw(G.large(types=draw(st.sampled_from(["B", "BBI"])), min_n=5, max_n=10, max_lcs=3, kinds=["int", "dyadic", "rough", "tiny"], ckinds=["int"], range=3)),
            "fmt": draw(st.sampled_from(["vector", "vectorfn", "dictfn", "amplitudes", "complex amplitudes", "counts", "statefn"])), "seed": draw(st.integers(0, 10 ** 6)),
            "states": draw(st.integers(2, 60)), "pen": draw(st.sampled_from([None, None, 0.5, 3]))}


def check_large(s, ctx):
    """eigenstates over many basis states, probabilities from 1e-5 to almost one"""
    import random

    p = G.expand(s["b"])
    rnd = random.Random(s["seed"])
    for c in p["lcs"]:
        c["lin"] = [[i, 1 if v > 0 else -1] for i, v in c["lin"][:4]]
        c["r"] = rnd.randint(0, 2)
    while p["lcs"] and slack_bits(p) > 13:
        p["lcs"].pop()
    if slack_bits(p) > 13:
        ctx.discard()
    k = s["states"]
    check_samples({"p": p, "fmt": s["fmt"], "idx": [rnd.randrange(2 ** 14) for _ in range(k)],
                   "w": [rnd.choice([1, 2, 3, 50, 1000]) for _ in range(k)], "ph": [rnd.choice([1, -1, "i", "-i"]) for _ in range(k)], "pen": s["pen"]}, ctx)
    ctx.label("states={}".format(k // 20 * 20), s["b"]["kind"])


VALUES = [0, 1, 2, 10, 11, 12, 20, 21, 22, 100, 101, 110, 111, 112, -1, -10, -11]


@st.composite
def wide_case(draw):
    n = draw(st.integers(2, 3))
    top = draw(st.sampled_from([12, 22, 25] if n == 3 else [12, 22, 112, 127]))
    vs = []
    for i in range(n):
        lo = draw(st.sampled_from([0, 0, 0, -11, -1, 1]))
        t = draw(st.sampled_from("IIIB")) if i else "I"
        vs.append({"n": "x{}".format(i), "t": t, "l": lo if t == "I" else 0, "u": lo + top if t == "I" else 1})
    pick = lambda v: st.sampled_from([a for a in VALUES if v["l"] <= a <= v["u"]])  # noqa
    k = draw(st.integers(3, 8))
    return {"vars": vs, "lin": draw(G.linear(n)), "quad": draw(G.quadratic(n, max_size=2)), "sense": draw(st.sampled_from(["min", "max"])),
            "xs": [[draw(pick(v)) for v in vs] for _ in range(k)],
            "fmt": draw(st.sampled_from(["vector", "dictfn", "counts", "amplitudes"])),
            "w": draw(st.lists(st.integers(1, 9), min_size=k, max_size=k))}


def check_wide(s, ctx):
    """integer variables with wide ranges: distinct points stay distinct samples"""
    p = {"name": "", "vars": s["vars"], "sense": s["sense"], "const": 0, "lin": s["lin"], "quad": s["quad"], "lcs": [], "qcs": []}
    ref = QuadraticProgramToQubo()
    m = ref.convert(M.build(p)).get_num_vars()
    base = np.array(ref.interpret(np.zeros(m)))
    unit = [np.array(ref.interpret(np.eye(m)[k])) - base for k in range(m)]
    idx = []
    for x in s["xs"]:
        rest, z = np.array(x, dtype=float) - base, 0
        for k in sorted(range(m), key=lambda k: -unit[k].max()):
            if (rest - unit[k] >= 0).all():
                rest, z = rest - unit[k], z | 1 << k
        ctx.check(not rest.any(), "every point has an encoding", x=x)
        idx.append(z)
    check_samples({"p": p, "fmt": s["fmt"], "idx": idx, "w": s["w"], "ph": [1] * len(idx), "pen": None}, ctx)


SUBCHECKS = [
    Sub("wide", wide_case(), check_wide, 400, 6000),
    Sub("large", large_case(), check_large, 300, 4000),
    Sub("exact", exact_case(), check_exact, 1500, 15000),
    Sub("samples", sample_case(), check_samples, 2000, 30000),
    Sub("incompatible", bad_case(), check_bad, 300, 1000),
]
