"""C17: WarmStartQAOAOptimizer: warm-start circuits encode the pre-solution, results are what the runs gave."""
import numpy as np
from hypothesis import strategies as st
from qiskit.algorithms import MinimumEigensolver, MinimumEigensolverResult
from qiskit.quantum_info import Statevector

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import (
    OptimizationAlgorithm,
    OptimizationResult,
    OptimizationResultStatus,
    SlsqpOptimizer,
    SolutionSample,
    WarmStartQAOAOptimizer,
)
from qiskit_optimization.algorithms.warm_start_qaoa_optimizer import MeanAggregator, WarmStartQAOAFactory
from qiskit_optimization.converters import QuadraticProgramToQubo

from checks.c06 import diag
from checks.c10 import prog, qubo_values
from checks.c12 import converters, verify_result, verify_samples
from vlib import apps as A
from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C17"
RULE = (
    "runs: integer programs with linear constraints (up to 10 QUBO variables), a recording pre-solver that returns 1-4 "
    "generated relaxed solutions, and a recording eigensolver that returns a generated state per run; circuits, "
    "operator, pre-solver problem and the single or averaged result are recomputed. factory: relaxed values and "
    "epsilons including both ends, solver noise beyond them, and out-of-range ones. qaoa: a real QAOA. Non-trivial: two or more runs or basis "
    "states (runs), a value that is clipped or an epsilon that is rejected (factory), every case (qaoa)."
)
SUCCESS = OptimizationResultStatus.SUCCESS
EPS = [0.0, 0.125, 0.25, 0.375, 0.5]


def theta(v):
    return 2 * np.arcsin(np.sqrt(v))


def ry(t):
    return np.array([[np.cos(t / 2), -np.sin(t / 2)], [np.sin(t / 2), np.cos(t / 2)]], dtype=complex)


def rz(t):
    return np.array([[np.exp(-1j * t / 2), 0], [0, np.exp(1j * t / 2)]])


def kron(vs):
    """qubit 0 is the least significant"""
    out = np.array([1.0 + 0j])
    for v in vs:
        out = np.kron(v, out)
    return out


def check_circuits(ctx, state, mixer, iv, beta, bits):
    n = len(iv)
    ctx.equal((state.num_qubits, mixer.num_qubits), (n, n), "number of qubits of the warm-start circuits")
    psi = Statevector(state)
    want = kron([np.array([np.sqrt(1 - v), np.sqrt(v)]) for v in iv])
    ctx.close(abs(np.vdot(want, psi.data)), 1, "qubit i of the initial state is 1 with the probability of variable i", tol=1e-7, variables=iv)
    ctx.equal(len(mixer.parameters), 1, "the mixer has one parameter")
    bound = mixer.bind_parameters({list(mixer.parameters)[0]: beta})
    ctx.close(abs(np.vdot(psi.data, psi.evolve(bound).data)), 1, "the initial state is an eigenstate of the mixer", tol=1e-7, variables=iv)
    start = Statevector(kron([np.array([1 - b, b], dtype=complex) for b in bits]))
    got = start.evolve(bound).data
    exp = kron([ry(theta(v)) @ rz(-2 * beta) @ ry(-theta(v)) @ np.array([1 - b, b]) for v, b in zip(iv, bits)])
    ctx.close(abs(np.vdot(exp, got)), 1, "the mixer is Ry(theta) Rz(-2 beta) Ry(-theta) on each qubit", tol=1e-7, variables=iv)


class Pre(OptimizationAlgorithm):
    def __init__(self, xs, status=SUCCESS, weights=None):
        self.xs, self.status, self.seen = xs, status, []
        self.weights = weights or [1] * len(xs)

    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        self.seen.append(M.read(problem))
        n = problem.get_num_vars()
        samples = [SolutionSample(np.array(x[:n]), float(-w), w / sum(self.weights), self.status) for x, w in zip(self.xs, self.weights)]
        return OptimizationResult(np.array(self.xs[0][:n]), 0.0, problem.variables, self.status, samples=samples)


class Solver(MinimumEigensolver):
    """stands in for QAOA: records what it is configured with and returns the state of the case"""

    def __init__(self, states):
        self.states, self.runs = states, []
        self.initial_state = self.mixer = None

    @classmethod
    def supports_aux_operators(cls):
        return True

    def compute_minimum_eigenvalue(self, operator, aux_operators=None):
        res = MinimumEigensolverResult()
        res.eigenvalue = 0
        res.eigenstate = self.states(len(self.runs), operator.num_qubits)
        self.runs.append((self.initial_state, self.mixer, operator))
        return res


@st.composite
def run_case(draw):
    p = draw(prog())
    k = draw(st.integers(1, 4))
    states = [
        [[draw(st.integers(0, 2 ** 10 - 1)), draw(st.one_of(st.integers(1, 9), st.sampled_from([30, 200, 1000])))] for _ in range(draw(st.integers(1, 4)))] for _ in range(k)
    ]
    return {
        "p": p,
        "xs": draw(st.lists(st.lists(st.one_of(st.integers(0, 8), st.sampled_from([1e-8, 1e-4, 8 / 3, 8 - 1e-5])), min_size=10, max_size=10), min_size=k, max_size=k)),
        "pw": draw(st.lists(st.integers(1, 5), min_size=4, max_size=4)),
        "num": draw(st.sampled_from([1, 1, 2, 2, 3, 5])),
        "states": states,
        "eps": draw(st.sampled_from(EPS)),
        "fac": draw(st.booleans()),
        "agg": draw(st.booleans()),
        "relax": draw(st.booleans()),
        "pen": draw(st.sampled_from([None, None, None, 3])),
        "conv": draw(st.sampled_from(["default", "default", "single", "one", "list"])),
        "beta": draw(st.integers(-16, 16)),
        "bits": draw(st.lists(st.integers(0, 1), min_size=10, max_size=10)),
        "twice": draw(st.integers(0, 4)) == 0,
    }


def check_runs(s, ctx):
    p = s["p"]
    qp = M.build(p)
    snap = M.snapshot(qp)
    conv = s["conv"] if s["pen"] is None else "default"
    ref = QuadraticProgramToQubo(s["pen"])
    d = M.read(ref.convert(M.build(p)))
    n = len(d["vars"])
    if n > 10:
        ctx.discard()
    xs = [[v / 8 for v in x] for x in s["xs"]]
    used = min(s["num"], len(xs))

    def state(k, nq):
        ctx.equal(nq, n, "number of qubits")
        out = {}
        for i, w in s["states"][k % len(s["states"])]:
            out["{:b}".format(i % 2 ** n).rjust(n, "0")] = w
        return out

    pre, solver = Pre(xs, weights=s.get("pw", [1] * 9)[: len(xs)]), Solver(state)
    kw = {"epsilon": s["eps"]}
    if s["fac"]:  # an explicit factory wins over epsilon
        kw = {"epsilon": 0.1, "warm_start_factory": WarmStartQAOAFactory(s["eps"])}
    if s["agg"]:
        kw["aggregator"] = MeanAggregator()
    opt = WarmStartQAOAOptimizer(pre, s["relax"], solver, num_initial_solutions=s["num"], penalty=s["pen"], converters=converters(conv), **kw)
    for rep in range(2 if s["twice"] else 1):
        pre.seen, solver.runs = [], []
        res = opt.solve(qp)
        ctx.equal(M.snapshot(qp), snap, "the given problem is not changed")
        ctx.equal(len(pre.seen), 1, "the pre-solver is asked once")
        seen = pre.seen[0]
        ctx.check(all(v["t"] == ("C" if s["relax"] else "B") and (v["l"], v["u"]) == (0, 1) for v in seen["vars"]),
                  "the pre-solver sees the relaxed problem exactly when asked to", vars=seen["vars"])
        q = dict(seen)
        ctx.equal((q["sense"], len(q["vars"]), q["lcs"], q["qcs"]), (d["sense"], n, [], []), "the pre-solver sees the QUBO")
        ctx.equal(len(solver.runs), used, "one run per initial solution")
        f = qubo_values(d)[1]
        fq = qubo_values(q)[1]
        scale = max(1.0, np.abs(f).max())
        ctx.check(np.abs(f - fq).max() <= 1e-9 * scale, "objective of the pre-solver's problem")
        per_run = []
        for k, (state0, mixer, op) in enumerate(solver.runs):
            iv = [min(max(v, s["eps"]), 1 - s["eps"]) for v in xs[k][:n]]
            check_circuits(ctx, state0, mixer, iv, s["beta"] / 5, s["bits"][:n])
            e = diag(op, n).real
            # C06: diagonal index is the integer of the bitstring, qubit i = variable i
            w = M.sgn(d) * A.evaluate(d, A.all_bits(n))[0]
            ctx.check(np.abs((e - e[0]) - (w - w[0])).max() <= 1e-8 * max(1.0, np.abs(w).max()), "the operator is the Ising form of the QUBO")
            weight = {}
            for i, c in s["states"][k % len(s["states"])]:
                weight[i % 2 ** n] = c
            tot = sum(weight.values())
            per_run.append({i: c / tot for i, c in weight.items()})
        merged, raw = {}, set()
        for dist in per_run:
            for i, pr in dist.items():
                z = [(i >> t) & 1 for t in range(n)]
                x = tuple(float(a) for a in ref.interpret(np.array(z)))
                merged[x] = merged.get(x, 0) + pr / len(per_run)
                raw.add((M.sgn(d) * M.objective(d, z), x))
        got = verify_samples(ctx, p, res.samples)
        ctx.equal(got, set(merged), "samples are the interpreted states of all runs", runs=used)
        for sm in res.samples:
            ctx.close(sm.probability, merged[tuple(float(a) for a in sm.x)], "probabilities are averaged over the runs", tol=1e-7)
        x = tuple(verify_result(ctx, p, qp, res))
        ctx.check(x in merged, "x is one of the samples", x=x)
        if used == 1:
            best = min(fv for fv, _ in raw)
            ctx.check(x in {y for fv, y in raw if fv <= best + 1e-7 * max(1, abs(best))}, "x is the best basis state", x=x)
        else:
            ok = [y for y in merged if M.feasible(p, y)]
            best = min(M.sgn(p) * M.objective(p, y) for y in (ok or merged))
            ctx.check((not ok or M.feasible(p, x)) and M.sgn(p) * M.objective(p, x) <= best + 1e-7 * max(1, abs(best)), "x is the best sample", x=x)
    ctx.label("runs={}".format(used), "relaxed" if s["relax"] else "as is", p["sense"], "{} qubits".format(n))
    ctx.nontrivial(used > 1 or len(merged) > 1)


factory_case = st.fixed_dictionaries({
    "eps": st.one_of(st.sampled_from(EPS), st.integers(0, 16).map(lambda k: k / 32), st.sampled_from([-0.125, 0.5625, 1.0, -1e-9])),
    "x": st.lists(st.one_of(st.integers(0, 32).map(lambda k: k / 32), st.sampled_from([-1e-9, 1e-9, 1e-5, 1 / 3, 1 - 1e-6, 1 + 1e-9])), min_size=1, max_size=8),
    "beta": st.integers(-20, 20),
    "bits": st.lists(st.integers(0, 1), min_size=8, max_size=8),
    "status": st.sampled_from(["FAILURE", "INFEASIBLE"]),
})


def check_factory(s, ctx):
    if not 0 <= s["eps"] <= 0.5:
        ctx.raises(QiskitOptimizationError, lambda: WarmStartQAOAFactory(s["eps"]), "epsilon outside [0, 0.5] is rejected")
        ctx.raises(QiskitOptimizationError, lambda: WarmStartQAOAOptimizer(Pre([[0]]), True, Solver(None), epsilon=s["eps"]), "epsilon outside [0, 0.5] is rejected")
        ctx.nontrivial()
        ctx.label("rejected")
        return
    f = WarmStartQAOAFactory(s["eps"])
    iv = f.create_initial_variables(np.array(s["x"]))
    want = [min(max(v, s["eps"]), 1 - s["eps"]) for v in s["x"]]
    ctx.all_close(iv, want, "relaxed values are moved into [epsilon, 1 - epsilon]")
    check_circuits(ctx, f.create_initial_state(iv), f.create_mixer(iv), want, s["beta"] / 7, s["bits"][: len(want)])
    # a pre-solver that does not succeed
    qp = M.build({"name": "", "vars": [{"n": "a", "t": "B", "l": 0, "u": 1}], "sense": "min", "const": 0, "lin": [[0, 1]], "quad": [], "lcs": [], "qcs": []})
    opt = WarmStartQAOAOptimizer(Pre([[0.5]], OptimizationResultStatus[s["status"]]), True, Solver(None), epsilon=s["eps"])
    ctx.raises(QiskitOptimizationError, lambda: opt.solve(qp), "a pre-solver failure is reported")
    ctx.nontrivial(any(v != w for v, w in zip(s["x"], want)))
    ctx.label("eps={}".format(s["eps"]))


@st.composite
def qaoa_case(draw):
    p = draw(G.problem(types="B", min_n=1, max_n=3, max_lcs=1, senses=("==",), value=G.nz_ints, allow_inf=False))
    return {"p": p, "eps": draw(st.sampled_from([0.25, 0.5, 0.125])), "seed": draw(st.integers(0, 99))}


def check_qaoa(s, ctx):
    from qiskit import Aer
    from qiskit.algorithms import QAOA
    from qiskit.algorithms.optimizers import COBYLA
    from qiskit.utils import QuantumInstance, algorithm_globals

    algorithm_globals.random_seed = s["seed"]
    np.random.seed(s["seed"])
    p = s["p"]
    qp = M.build(p)
    qi = QuantumInstance(Aer.get_backend("aer_simulator_statevector"), seed_simulator=s["seed"], seed_transpiler=s["seed"], shots=256)
    opt = WarmStartQAOAOptimizer(SlsqpOptimizer(), True, QAOA(optimizer=COBYLA(maxiter=4), reps=1, quantum_instance=qi), epsilon=s["eps"])
    res = opt.solve(qp)
    x = tuple(verify_result(ctx, p, qp, res))
    seen = verify_samples(ctx, p, res.samples)
    ctx.check(x in seen, "x is one of the samples")
    ctx.close(sum(sm.probability for sm in res.samples), 1, "probabilities add up to one", tol=1e-4)
    ctx.nontrivial()


@st.composite
def bad_case(draw):
    return {"p": draw(G.problem(types="BIC", max_n=3, max_range=3, max_lcs=1, max_qcs=1, value=G.nz_ints, allow_inf=False))}


def check_bad(s, ctx):
    p = s["p"]
    if not (any(v["t"] == "C" for v in p["vars"]) or p["qcs"]):
        ctx.discard()
    qp = M.build(p)
    opt = WarmStartQAOAOptimizer(Pre([[0.5] * 10]), True, Solver(lambda k, n: {"0" * n: 1}))
    ctx.check(not opt.is_compatible(qp), "incompatible")
    ctx.raises(QiskitOptimizationError, lambda: opt.solve(qp), "incompatible programs are rejected")
    ctx.nontrivial()


SUBCHECKS = [
    Sub("runs", run_case(), check_runs, 2500, 20000, hang_s=300),
    Sub("factory", factory_case, check_factory, 1500, 10000),
    Sub("qaoa", qaoa_case(), check_qaoa, 80, 600, hang_s=300),
    Sub("incompatible", bad_case(), check_bad, 150, 800),
]
