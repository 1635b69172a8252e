"""C25: the whole chain — application, conversions, exact optimizer, interpretation — solves the stated problem."""
import contextlib
import copy
import io
import os
import tempfile
from itertools import combinations, permutations

import numpy as np
from hypothesis import strategies as st
from qiskit.algorithms import NumPyMinimumEigensolver

from qiskit_optimization import QiskitOptimizationError, QuadraticProgram
from qiskit_optimization.algorithms import (
    CplexOptimizer,
    MinimumEigenOptimizer,
    OptimizationResultStatus,
    RecursiveMinimumEigenOptimizer,
)
from qiskit_optimization.applications import (
    Clique,
    ExactCover,
    GraphPartition,
    Knapsack,
    Maxcut,
    NumberPartition,
    SetPacking,
    StableSet,
    Tsp,
    VehicleRouting,
    VertexCover,
)
from qiskit_optimization.converters import (
    InequalityToEquality,
    IntegerToBinary,
    LinearEqualityToPenalty,
    QuadraticProgramToQubo,
)

from checks.c05 import is_const
from checks.c10 import prog
from vlib import apps as A
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C25"
RULE = (
    "applications: small instances of all eleven applications, solved by CPLEX, the NumPy eigensolver, the recursive "
    "optimizer over it, and CPLEX on the QUBO, each interpreted by the application and compared with a search over the "
    "combinatorial definition (sets, partitions, tours) that never looks at a program. programs: integer programs "
    "solved directly and after LP-file, docplex, QUBO, stage-wise, Ising, negated-objective and slack round trips; all "
    "routes must give the enumerated optimum. Non-trivial: the instance has solutions of different values, or none."
)
SUCCESS = OptimizationResultStatus.SUCCESS
MAXQ = 10
APPS = ["maxcut", "partition", "stable", "cover", "clique", "packing", "exact", "numbers", "knapsack", "tsp", "vrp"]
small = st.integers(1, 6)


def subsets(items):
    items = list(items)
    return [list(c) for k in range(len(items) + 1) for c in combinations(items, k)]


@st.composite
def app_case(draw):
    app = draw(st.sampled_from(APPS))
    s = {"app": app, "route": draw(st.sampled_from(["cplex", "numpy", "numpy", "recursive", "qubo-cplex", "stages"]))}
    if app in ("maxcut", "partition", "stable", "cover", "clique"):
        s["g"] = draw(A.graph(min_n=2, max_n=6))
        s["size"] = draw(st.one_of(st.none(), st.integers(1, s["g"]["n"])))
    elif app in ("packing", "exact"):
        lab = list(range(draw(st.integers(2, 5))))
        s["sets"] = [draw(st.lists(st.sampled_from(lab), min_size=1, max_size=3, unique=True)) for _ in range(draw(st.integers(1, 5)))]
        if app == "exact" and draw(st.booleans()):
            cut = draw(st.integers(1, len(lab) - 1))
            s["sets"] += [lab[:cut], lab[cut:]]
    elif app == "numbers":
        s["nums"] = draw(st.lists(st.integers(1, 9), min_size=1, max_size=6))
        if draw(st.booleans()):
            s["nums"] = s["nums"][:3] + draw(st.permutations(s["nums"][:3]))
    elif app == "knapsack":
        n = draw(st.integers(1, 5))
        s["values"] = draw(st.lists(small, min_size=n, max_size=n))
        s["weights"] = draw(st.lists(small, min_size=n, max_size=n))
        s["cap"] = draw(st.integers(0, sum(s["weights"]) + 2))
    elif app == "tsp":
        s["g"] = draw(A.graph(min_n=3, max_n=draw(st.sampled_from([3, 3, 4])), weights="positive", complete=True))
    else:
        s["g"] = draw(A.graph(min_n=3, max_n=draw(st.sampled_from([3, 3, 4])), weights="positive", complete=True))
        s["K"] = draw(st.integers(1, s["g"]["n"] - 1))
        s["depot"] = draw(st.integers(0, s["g"]["n"] - 1))
    return s


class Case:
    """an application with a search over its definition: best value, and a judge of interpreted solutions"""

    def __init__(self, s):
        self.values = []
        getattr(self, s["app"])(s)

    def graph(self, s):
        g = s["g"]
        self.n = g["n"]
        self.E = [(i, j, A.weight(w)) for i, j, w in g["edges"]]
        obj, _ = A.make(g)
        return obj

    def search(self, candidates, valid, value, best):
        self.valid, self.value = valid, value
        self.values = sorted({round(value(c), 9) for c in candidates if valid(c)})
        self.best = None if not self.values else (self.values[-1] if best == "max" else self.values[0])

    def cut(self, parts):
        return sum(w for i, j, w in self.E if (i in parts[0]) != (j in parts[0]))

    def two(self):
        return [[[i for i in range(self.n) if i not in c], c] for c in subsets(range(self.n))]

    def is_split(self, parts):
        return len(parts) == 2 and sorted(parts[0] + parts[1]) == list(range(self.n))

    def maxcut(self, s):
        self.app = Maxcut(self.graph(s))
        self.search(self.two(), self.is_split, self.cut, "max")

    def partition(self, s):
        self.app = GraphPartition(self.graph(s))
        self.search(self.two(), lambda p: self.is_split(p) and len(p[1]) == self.n // 2, self.cut, "min")

    def stable(self, s):
        self.app = StableSet(self.graph(s))
        self.search(subsets(range(self.n)), lambda c: not any(i in c and j in c for i, j, _ in self.E), len, "max")

    def cover(self, s):
        self.app = VertexCover(self.graph(s))
        self.search(subsets(range(self.n)), lambda c: all(i in c or j in c for i, j, _ in self.E), len, "min")

    def clique(self, s):
        self.app = Clique(self.graph(s), s["size"])
        adj = {frozenset(e[:2]) for e in self.E}
        self.search(subsets(range(self.n)),
                    lambda c: (s["size"] is None or len(c) == s["size"]) and all(frozenset(p) in adj for p in combinations(c, 2)),
                    len, "max")

    def packing(self, s):
        self.app = SetPacking([list(c) for c in s["sets"]])
        self.search(subsets(s["sets"]), lambda c: len(sum(c, [])) == len(set(sum(c, []))), len, "max")

    def exact(self, s):
        self.app = ExactCover([list(c) for c in s["sets"]])
        universe = sorted(set(sum(s["sets"], [])))
        self.search(subsets(s["sets"]), lambda c: sorted(sum(c, [])) == universe, len, "min")

    def numbers(self, s):
        nums = s["nums"]
        self.app = NumberPartition(list(nums))
        cand = [[[nums[i] for i in range(len(nums)) if i not in c], [nums[i] for i in c]] for c in subsets(range(len(nums)))]
        self.search(cand, lambda p: sum(p[0]) == sum(p[1]) and sorted(p[0] + p[1]) == sorted(nums), lambda p: 0, "min")

    def knapsack(self, s):
        self.app = Knapsack(list(s["values"]), list(s["weights"]), s["cap"])
        self.search(subsets(range(len(s["values"]))), lambda c: sum(s["weights"][i] for i in c) <= s["cap"],
                    lambda c: sum(s["values"][i] for i in c), "max")

    def dist(self):
        W = np.zeros((self.n, self.n))
        for i, j, w in self.E:
            W[i, j] = W[j, i] = w
        return W

    def tsp(self, s):
        self.app = Tsp(self.graph(s))
        W = self.dist()
        self.search([list(p) for p in permutations(range(self.n))], lambda p: sorted(p) == list(range(self.n)),
                    lambda p: float(sum(W[p[k], p[(k + 1) % self.n]] for k in range(self.n))), "min")

    def vrp(self, s):
        self.app = VehicleRouting(self.graph(s), s["K"], s["depot"])
        W, n, K, d = self.dist(), self.n, s["K"], s["depot"]
        rest = [i for i in range(n) if i != d]
        cand = []
        for p in permutations(rest):
            for cuts in combinations(range(1, len(rest)), K - 1):
                c = [0] + list(cuts) + [len(rest)]
                stops = [[d] + list(p[a:b]) + [d] for a, b in zip(c, c[1:])]
                cand.append([list(zip(r, r[1:])) for r in stops])

        def valid(routes):
            if len(routes) != K:
                return False
            seen = []
            for r in routes:
                r = [list(e) for e in r]
                if not r or r[0][0] != d or r[-1][1] != d or any(a[1] != b[0] for a, b in zip(r, r[1:])):
                    return False
                seen += [e[0] for e in r if e[0] != d]
            return sorted(seen) == rest

        self.search(cand, valid, lambda routes: float(sum(W[e[0], e[1]] for r in routes for e in r)), "min")


def stages():
    return [InequalityToEquality(mode="integer"), IntegerToBinary(), LinearEqualityToPenalty()]


def plain(v):
    return [plain(a) for a in v] if isinstance(v, (list, tuple)) else (int(v) if isinstance(v, np.integer) else v)


def qubits(qp):
    try:
        return QuadraticProgramToQubo().convert(qp).get_num_vars()
    except QiskitOptimizationError:
        return None


def solve(ctx, route, qp):
    """(result or None when there is no solution, point in the variables of qp)"""
    if route == "cplex":
        r = CplexOptimizer().solve(qp)
        return r if r.x is not None else None
    if route == "numpy":
        r = MinimumEigenOptimizer(NumPyMinimumEigensolver()).solve(qp)
    elif route == "recursive":
        r = RecursiveMinimumEigenOptimizer(MinimumEigenOptimizer(NumPyMinimumEigensolver()), min_num_vars=2).solve(qp)
    elif route == "qubo-cplex":
        conv = QuadraticProgramToQubo()
        q = CplexOptimizer().solve(conv.convert(qp))
        return np.array([round(a) for a in conv.interpret(np.round(q.x))])
    elif route == "stages":
        cs = stages()
        q = qp
        for c in cs:
            q = c.convert(q)
        x = np.round(CplexOptimizer().solve(q).x)
        for c in reversed(cs):
            x = c.interpret(x)
        return np.round(x)
    return r if r.status == SUCCESS else None


def check_app(s, ctx):
    ctx.label(s["app"], s["route"])
    case = Case(s)
    qp = case.app.to_quadratic_program()
    route = s["route"]
    if route != "cplex":
        k = qubits(qp)
        ctx.check(k is not None, "applications with integer data convert to a QUBO")
        if k > MAXQ and route in ("numpy", "recursive") or k > 24:
            route = "cplex"
            ctx.label("too large, CPLEX instead")
    r = solve(ctx, route, qp)
    ctx.nontrivial(len(case.values) != 1)
    if case.best is None:
        if isinstance(r, np.ndarray):
            ctx.check(not qp.is_feasible(r), "an instance without a solution has no feasible point", x=r.tolist())
        else:
            ctx.check(r is None, "an instance without a solution is not solved", r=str(r))
        ctx.label("no solution")
        return
    ctx.check(r is not None, "an instance with a solution is solved", best=case.best)
    sol = plain(case.app.interpret(r))
    ctx.check(case.valid(sol), "the interpreted solution is a solution of the combinatorial problem", solution=sol)
    ctx.close(case.value(sol), case.best, "the interpreted solution is optimal", solution=sol, tol=1e-7)


# ---------------------------------------------------------------- integer programs, all routes agree
ROUTES = ["lp", "docplex", "ising", "negate", "slack", "double", "copy"]


@st.composite
def prog_case(draw):
    return {"p": draw(prog()), "route": draw(st.sampled_from(ROUTES)),
            "solver": draw(st.sampled_from(["numpy", "numpy", "recursive", "qubo-cplex", "stages"]))}


def reshape(route, p, qp, ctx):
    """an equivalent program and the map of its points back; None where the route does not apply"""
    same = lambda x: x  # noqa
    if route == "lp":
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "p.lp")
            qp.write_to_lp_file(f)
            out = QuadraticProgram()
            with contextlib.redirect_stdout(io.StringIO()):
                out.read_from_lp_file(f)
        # unused variables are not part of an LP file

        def by_name(x):
            val = dict(zip([v.name for v in out.variables], x))
            return [val.get(v["n"], np.ceil(v["l"])) for v in p["vars"]]

        return out, by_name
    if route == "docplex":
        out = QuadraticProgram()
        out.from_docplex(qp.to_docplex())
        return out, same
    if route == "ising":
        conv = QuadraticProgramToQubo()
        op, off = conv.convert(qp).to_ising()
        out = QuadraticProgram()
        out.from_ising(op, off, linear=True)
        return out, lambda x: conv.interpret(x)
    if route == "negate":
        q = dict(p, sense="max" if p["sense"] == "min" else "min", const=-p["const"],
                 lin=[[i, -v] for i, v in p["lin"]], quad=[[i, j, -v] for i, j, v in p["quad"]])
        return M.build(q), same
    if route == "slack":
        conv = InequalityToEquality(mode="integer")
        return conv.convert(qp), lambda x: conv.interpret(x)
    if route == "double":
        # convert a QUBO again: nothing may change
        a, b = QuadraticProgramToQubo(), QuadraticProgramToQubo()
        return b.convert(a.convert(qp)), lambda x: a.interpret(b.interpret(x))
    return copy.deepcopy(qp), same


def check_prog(s, ctx):
    p = s["p"]
    if s["route"] in ("lp", "docplex"):
        # names of variables and constraints are C05's subject, as are constraints without variables
        p = dict(p, vars=[dict(v, n="v{}".format(k)) for k, v in enumerate(p["vars"])],
                 lcs=[dict(c, n="c{}".format(k)) for k, c in enumerate(p["lcs"])])
        if any(is_const(c) for c in p["lcs"]):
            ctx.discard()
    qp = M.build(p)
    if qubits(qp) > MAXQ:
        ctx.discard()
    ctx.label(s["route"], s["solver"])
    out, back = reshape(s["route"], p, qp, ctx)
    if out.get_num_vars() == 0:
        ctx.label("nothing left")
        return
    if s["solver"] in ("numpy", "recursive") and qubits(out) > MAXQ + 1:
        ctx.discard()
    r = solve(ctx, s["solver"], out)
    best, arg = M.brute(p)
    if best is None:
        x = None if r is None else [float(a) for a in back(r if isinstance(r, np.ndarray) else r.x)]
        ctx.check(x is None or not M.constraints_ok(p, x), "a program without a solution has no feasible point", x=x)
        ctx.label("infeasible")
        return
    ctx.check(r is not None, "a feasible program is solved on every route")
    x = tuple(float(a) for a in back(np.array(r if isinstance(r, np.ndarray) else r.x)))
    ctx.check(x in {tuple(float(a) for a in y) for y in arg}, "every route gives an optimal point", x=x, optimal=sorted(arg)[:3])
    vals = {M.objective(p, y) for y in M.points(p)}
    ctx.nontrivial(len(vals) > 1)


SUBCHECKS = [
    Sub("applications", app_case(), check_app, 700, 8000),
    Sub("programs", prog_case(), check_prog, 500, 6000),
]
