"""C26: optimizers can be reused: a solve depends on the program and the settings, not on what was solved before."""
import numpy as np
from hypothesis import strategies as st
from qiskit.algorithms.minimum_eigen_solvers import MinimumEigensolver, MinimumEigensolverResult
from qiskit.quantum_info import Statevector
from qiskit.utils import algorithm_globals

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import (
    ADMMOptimizer,
    CobylaOptimizer,
    CplexOptimizer,
    GoemansWilliamsonOptimizer,
    GroverOptimizer,
    MeanAggregator,
    MinimumEigenOptimizer,
    RecursiveMinimumEigenOptimizer,
    SlsqpOptimizer,
    WarmStartQAOAOptimizer,
)
from qiskit_optimization.algorithms.admm_optimizer import ADMMParameters

from checks.c10 import prog as discrete
from checks.c12 import converters
from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C26"
RULE = (
    "A case is one optimizer (CPLEX, minimum-eigen with every converter form, recursive, Grover, warm start, ADMM, "
    "COBYLA, SLSQP, Goemans-Williamson) with generated settings and a history of 3-5 solves over 2-3 programs: the same "
    "one again, the same one edited in place, others, infeasible ones, and incompatible ones that are rejected. After every solve the result is "
    "compared with that of a new optimizer (same random seed), the program with its snapshot, and at the end all "
    "earlier results with their snapshots. Non-trivial: two or more completed solves, at least one after a different "
    "program, an edit or a rejection."
)


class Ground(MinimumEigensolver):
    """deterministic: the uniform superposition of the ground states, or of a part of them"""

    def __init__(self, cut=0):
        self.cut = cut

    @classmethod
    def supports_aux_operators(cls):
        return True

    def compute_minimum_eigenvalue(self, operator, aux_operators=None):
        d = np.real(np.diag(operator.to_matrix()))
        z = np.nonzero(d <= d.min() + 1e-9)[0]
        v = np.zeros(len(d))
        v[z[: self.cut] if self.cut else z] = 1
        res = MinimumEigensolverResult()
        res.eigenvalue = float(d.min())
        res.eigenstate = v / np.linalg.norm(v)
        return res


class Prepared(Ground):
    """stands in for QAOA: answers with the warm-start state it was given"""

    def __init__(self):
        super().__init__()
        self.initial_state = self.mixer = None

    def compute_minimum_eigenvalue(self, operator, aux_operators=None):
        res = MinimumEigensolverResult()
        res.eigenvalue = 0.0
        psi = Statevector(self.initial_state).evolve(self.mixer.bind_parameters({p: 0.3 for p in self.mixer.parameters}))
        res.eigenstate = psi.data
        return res


@st.composite
def continuous(draw, types="C"):
    p = draw(G.problem(types=types, min_n=1, max_n=3, max_lcs=2, value=G.nz_ints, allow_inf=False))
    disc = [v["t"] != "C" for v in p["vars"]]
    p["quad"] = [[i, j, v] for i, j, v in p["quad"] if disc[i] == disc[j]]
    p["lcs"] = [c for c in p["lcs"] if any(v and p["vars"][i]["l"] < p["vars"][i]["u"] for i, v in c["lin"])]
    return p


tiny = G.problem(types="B", min_n=1, max_n=2, max_lcs=0, value=st.integers(-2, 2).filter(bool), max_quad=2)
maxcut = G.problem(types="B", min_n=2, max_n=4, max_lcs=0, value=G.nz_ints)
KINDS = {
    "cplex": discrete(),
    "eigen": discrete(),
    "recursive": discrete(),
    "warm": discrete(),
    "grover": tiny,
    "admm": continuous("BBIC"),
    "cobyla": continuous(),
    "slsqp": continuous(),
    "gw": maxcut,
}


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["cplex", "eigen", "eigen", "recursive", "recursive", "warm", "warm", "grover", "admm", "cobyla", "slsqp", "gw"]))
    k = draw(st.integers(2, 3))
    return {
        "kind": kind,
        "ps": [draw(KINDS[kind]) for _ in range(k)],
        "order": draw(st.lists(st.integers(-1, 3 * k - 1).map(lambda v: v % k if v >= 0 else -1), min_size=3, max_size=5)),
        # before each solve: nothing, or an edit of the program in place
        "edits": draw(st.lists(st.sampled_from(["", "", "const", "lin", "quad", "rhs", "sense", "bound"]), min_size=5, max_size=5)),
        "conv": draw(st.sampled_from(["default", "single", "one", "list"])),
        "a": draw(st.integers(1, 3)),
        "b": draw(st.booleans()),
        "seed": draw(st.integers(0, 10 ** 6)),
    }


def make(s):
    """a new optimizer with the settings of the case"""
    kind, a, b = s["kind"], s["a"], s["b"]
    if kind == "cplex":
        return CplexOptimizer()
    if kind == "eigen":
        return MinimumEigenOptimizer(Ground(a if b else 0), penalty=[None, 30.0, None][a - 1], converters=converters(s["conv"]))
    if kind == "recursive":
        return RecursiveMinimumEigenOptimizer(
            MinimumEigenOptimizer(Ground(a - 1)), min_num_vars=a, min_num_vars_optimizer=CplexOptimizer() if b else MinimumEigenOptimizer(Ground(1)),
            converters=converters(s["conv"]))
    if kind == "warm":
        return WarmStartQAOAOptimizer(
            Pre(), True, Prepared(), epsilon=a / 8, num_initial_solutions=1 + a * b,
            aggregator=MeanAggregator() if b else None, converters=converters(s["conv"]))
    if kind == "grover":
        from qiskit import Aer
        from qiskit.utils import QuantumInstance

        qi = QuantumInstance(Aer.get_backend("aer_simulator_statevector"), seed_simulator=s["seed"], seed_transpiler=s["seed"])
        return GroverOptimizer(4, num_iterations=a, quantum_instance=qi, converters=converters(s["conv"]))
    if kind == "admm":
        return ADMMOptimizer(
            qubo_optimizer=MinimumEigenOptimizer(Ground(1)), continuous_optimizer=SlsqpOptimizer(),
            params=ADMMParameters(maxiter=a + 1, three_block=b, vary_rho=a % 2, rho_initial=1000, warm_start=bool(s["seed"] % 2)))
    if kind == "cobyla":
        return CobylaOptimizer(maxfun=200, trials=a, clip=5.0)
    if kind == "slsqp":
        return SlsqpOptimizer(trials=a, clip=5.0, full_output=b)
    return GoemansWilliamsonOptimizer(num_cuts=a, sort_cuts=b, unique_cuts=bool(s["seed"] % 2))


class Pre(SlsqpOptimizer):
    """a pre-solver whose number of relaxed solutions depends on the program"""

    def solve(self, problem):
        from qiskit_optimization.algorithms import OptimizationResult, OptimizationResultStatus, SolutionSample

        n = problem.get_num_vars()
        xs = [np.array([((3 * i + 5 * k) % 8) / 8 for i in range(n)]) for k in range(1 + (n + len(problem.objective.linear.to_dict())) % 3)]
        sm = [SolutionSample(x, float(k), 1 / len(xs), OptimizationResultStatus.SUCCESS) for k, x in enumerate(xs)]
        return OptimizationResult(xs[0], 0.0, problem.variables, OptimizationResultStatus.SUCCESS, samples=sm)


def reseed(s):
    algorithm_globals.random_seed = s["seed"]
    np.random.seed(s["seed"] % 2 ** 31)


def floats(x):
    return None if x is None else [round(float(a), 9) + 0.0 for a in np.ravel(x)]


def snap(res):
    out = {"x": floats(res.x), "fval": None if res.fval is None else round(float(res.fval), 7), "status": res.status.name}
    if res.samples is not None:
        out["samples"] = [(floats(sm.x), round(float(sm.fval), 7), round(float(sm.probability), 7), sm.status.name)
                          for sm in res.samples if sm.x is not None]
    if hasattr(res, "replacements"):
        out["replacements"] = dict(res.replacements)
        out["history"] = (res.history[0] is not None, None if res.history[1] is None else snap(res.history[1]))
    if hasattr(res, "state") and res.state is not None:
        out["merits"] = floats(res.state.merits)
        out["residuals"] = floats(res.state.residuals)
    if hasattr(res, "n_input_qubits"):
        out["grover"] = (res.n_input_qubits, res.n_output_qubits, res.threshold, floats([res.intermediate_fval]),
                         {k: dict(v) for k, v in res.operation_counts.items()})
    return out


BAD = {"name": "", "vars": [{"n": "u", "t": "C", "l": 0, "u": 4}, {"n": "v", "t": "B", "l": 0, "u": 1}, {"n": "w", "t": "I", "l": 0, "u": 3}],
       "sense": "max", "const": 3, "lin": [[0, 1], [1, 2]], "quad": [[0, 1, 1.5], [2, 2, 1]],
       "lcs": [], "qcs": [{"n": "q", "lin": [[0, 1]], "quad": [[0, 1, 1], [2, 1, 0.5]], "s": "<=", "r": 2}]}


def edit(qp, what, k):
    """the same edit on the program that is solved repeatedly and on a new one"""
    obj, n = qp.objective, qp.get_num_vars()
    if what == "const":
        obj.constant += 3
    elif what == "lin":
        obj.linear[k % n] = float(obj.linear[k % n]) - 2
    elif what == "quad":
        i, j = k % n, (k + 1) % n
        if qp.variables[i].vartype == qp.variables[j].vartype and i != j:
            obj.quadratic[i, j] = float(obj.quadratic[i, j]) + 1
    elif what == "rhs" and qp.linear_constraints:
        c = qp.linear_constraints[k % len(qp.linear_constraints)]
        c.rhs = c.rhs + 1
    elif what == "sense":
        obj.sense = obj.Sense.MAXIMIZE if obj.sense == obj.Sense.MINIMIZE else obj.Sense.MINIMIZE
    elif what == "bound":
        v = qp.variables[k % n]
        if v.vartype == v.Type.INTEGER and v.lowerbound + 1 <= v.upperbound:
            v.upperbound = v.upperbound - 1


def attempt(opt, qp, s):
    reseed(s)
    try:
        return opt.solve(qp), None
    except Exception as ex:  # noqa  compared below: a reused optimizer must fail as a new one does
        return None, type(ex).__name__


def check(s, ctx):
    reseed(s)
    opt = make(s)
    qps = [M.build(p) for p in s["ps"]]
    before = [M.snapshot(qp) for qp in qps]
    earlier = []
    last, useful = None, False
    done = [[] for _ in qps]
    for step, k in enumerate(s["order"]):
        qp = M.build(BAD if k < 0 else s["ps"][k])
        if k >= 0:
            if s["edits"][step]:
                done[k].append((s["edits"][step], step))
                edit(qps[k], *done[k][-1])
                before[k] = M.snapshot(qps[k])
            for e in done[k]:
                edit(qp, *e)
            ctx.equal(M.snapshot(qp), before[k], "the same edits give the same program")
        reseed(s)
        other = make(s)
        want, err = attempt(other, qp, s)
        qp = M.build(BAD) if k < 0 else qps[k]
        got, gerr = attempt(opt, qp, s)
        ctx.equal(gerr, err, "a reused optimizer fails as a new one does", kind=s["kind"], program=k)
        if k < 0:
            ctx.label("rejected" if err else "unusual program accepted")
        else:
            ctx.equal(M.snapshot(qp), before[k], "the program must not change", kind=s["kind"])
        if got is not None:
            a, b = snap(got), snap(want)
            ctx.equal(a, b, "a reused optimizer gives what a new one gives", kind=s["kind"], program=k)
            ctx.equal(got.variable_names, [v.name for v in qp.variables], "the result is about the solved program")
            earlier.append((got, a))
            useful = useful or (last is not None and (last != k or bool(s["edits"][step])))
        last = k
    for res, a in earlier:
        ctx.equal(snap(res), a, "later solves do not change earlier results", kind=s["kind"])
    ctx.label(s["kind"])
    ctx.nontrivial(len(earlier) > 1 and useful)


SUBCHECKS = [Sub("history", case(), check, 560, 8000, hang_s=300)]
