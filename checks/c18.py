"""C18: GoemansWilliamsonOptimizer: reported cuts are true cuts, the SDP bounds the optimum."""
import numpy as np
from hypothesis import strategies as st

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import GoemansWilliamsonOptimizer, OptimizationResultStatus
from qiskit_optimization.applications import Maxcut

from vlib import apps as A
from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C18"
RULE = (
    "cuts: max-cut programs of graphs with 1-8 nodes (isolated nodes, negative and fractional weights), 1-40 cuts, all "
    "combinations of sorting and uniqueness, seeds; every sample is recomputed, the SDP solution is validated against "
    "the enumerated maximum cut. large: 9-13 nodes, up to 60 cuts, arbitrary floats as weights. reject: programs with integer or continuous variables; an SDP solver that fails. "
    "Non-trivial: the graph has an edge and at least two samples are reported (cuts); every rejection or failure."
)
SUCCESS = OptimizationResultStatus.SUCCESS


@st.composite
def case(draw):
    g = draw(A.graph(min_n=1, max_n=8, weights=draw(st.sampled_from(["positive", "positive", "mixed"]))))
    return {
        "g": g,
        "num": draw(st.sampled_from([1, 2, 5, 10, 25, 40])),
        "sort": draw(st.booleans()),
        "unique": draw(st.booleans()),
        "seed": draw(st.integers(0, 50)),
        "default": draw(st.integers(0, 3)) == 0,
        "raw": draw(st.booleans()),
        "again": draw(st.integers(0, 3)) == 0,
    }


def cut(g, x):
    return sum(A.weight(w) for i, j, w in g["edges"] if x[i] != x[j])


@st.composite
def large_case(draw):
    return {
        "b": draw(A.big_graph(min_n=9, max_n=13, weights=draw(st.sampled_from(["positive", "mixed"])), kinds=("int", "dyadic", "rough", "none"))),
        "num": draw(st.sampled_from([3, 10, 30, 60])), "sort": draw(st.booleans()), "unique": draw(st.booleans()),
        "seed": draw(st.integers(0, 1000)), "default": False, "raw": draw(st.booleans()), "again": False,
    }


def check_large(s, ctx):
    check(dict(s, g=A.expand(s["b"])), ctx)


def check(s, ctx):
    g, n = s["g"], s["g"]["n"]
    if s["raw"]:
        # the program written out directly rather than by the application class
        spec = {"name": "", "vars": [{"n": "v{}".format(i), "t": "B", "l": 0, "u": 1} for i in range(n)], "sense": "max", "const": 0,
                "lin": [[k, A.weight(w)] for i, j, w in g["edges"] for k in (i, j)],
                "quad": [[i, j, -2 * A.weight(w)] for i, j, w in g["edges"]], "lcs": [], "qcs": []}
        qp = M.build(spec, "index", "coo")
    else:
        qp = Maxcut(A.make(g)[0]).to_quadratic_program()
    snap = M.snapshot(qp)

    def make():
        if s["default"]:
            return GoemansWilliamsonOptimizer(s["num"], seed=s["seed"])
        return GoemansWilliamsonOptimizer(num_cuts=s["num"], sort_cuts=s["sort"], unique_cuts=s["unique"], seed=s["seed"])

    sort, unique = (True, True) if s["default"] else (s["sort"], s["unique"])
    opt = make()
    ctx.check(opt.is_compatible(qp), "a max-cut program is compatible")
    res = opt.solve(qp)
    first = [list(map(int, sm.x)) for sm in res.samples]
    X = A.all_bits(n)
    best = max(sum((A.weight(w) * (X[:, i] != X[:, j]) for i, j, w in g["edges"]), np.zeros(len(X))))
    for rep in range(2 if s["again"] else 1):
        if rep:
            res = opt.solve(qp)
        ctx.equal(M.snapshot(qp), snap, "the given problem is not changed")
        ctx.equal(res.status, SUCCESS, "status")
        ss = res.samples
        ctx.check(1 <= len(ss) <= s["num"], "number of samples", samples=len(ss), num=s["num"])
        if not unique:
            ctx.equal(len(ss), s["num"], "all cuts are reported")
        for sm in ss:
            ctx.equal(len(sm.x), n, "length of a sample")
            ctx.check(all(v in (0, 1) for v in sm.x), "samples are binary", x=list(sm.x))
            ctx.close(sm.fval, cut(g, sm.x), "the value of a sample is the weight of its cut", x=list(sm.x))
            ctx.close(sm.fval, qp.objective.evaluate([int(v) for v in sm.x]), "the value of a sample is its objective value")
            ctx.close(sm.probability, 1 / len(ss), "samples are equally likely")
            ctx.equal(sm.status, SUCCESS, "status of a sample")
        if sort:
            f = [sm.fval for sm in ss]
            ctx.check(all(a >= b - 1e-9 for a, b in zip(f, f[1:])), "cuts are sorted by value", f=f)
        if unique:
            keys = set()
            for sm in ss:
                x = tuple(int(v) for v in sm.x)
                ctx.check(x not in keys and tuple(1 - v for v in x) not in keys, "cuts are unique up to exchanging the sides", x=x)
                keys.add(x)
        ctx.equal([int(v) for v in res.x], [int(v) for v in ss[0].x], "x is the first sample")
        ctx.close(res.fval, ss[0].fval, "fval is the value of the first sample")
        ctx.equal(res.variable_names, [v.name for v in qp.variables], "variables of the result")
        chi = np.asarray(res.sdp_solution)
        ctx.equal(chi.shape, (n, n), "shape of the SDP solution")
        ctx.check(np.abs(np.diag(chi) - 1).max() <= 1e-3, "unit vectors", diag=np.diag(chi).tolist())
        ctx.check(np.linalg.eigvalsh((chi + chi.T) / 2)[0] >= -1e-3, "the SDP solution is positive semidefinite")
        bound = sum(A.weight(w) * (1 - chi[i, j]) / 2 for i, j, w in g["edges"])
        scale = 1e-2 * max(1.0, sum(abs(A.weight(w)) for _, _, w in g["edges"]))
        ctx.check(bound >= best - scale, "the SDP value is an upper bound of the maximum cut", sdp=bound, best=best)
        positive = all(A.weight(w) >= 0 for _, _, w in g["edges"])
        if positive:
            ctx.check(0.878 * bound <= best + scale, "the SDP value is at most the maximum cut / 0.878", sdp=bound, best=best)
            if s["num"] >= 25:
                top = max(sm.fval for sm in ss)
                ctx.check(top >= 0.8 * best - 1e-9, "the best of many cuts is close to the maximum cut", best_cut=top, maximum=best)
                ctx.label("ratio")
    # the seed decides the cuts
    ctx.equal([list(map(int, sm.x)) for sm in make().solve(qp).samples], first, "the same seed gives the same cuts")
    ctx.label("sorted" if sort else "unsorted", "unique" if unique else "all", "cuts={}".format(s["num"]))
    ctx.nontrivial(bool(g["edges"]) and len(ss) >= 2)


reject_case = st.fixed_dictionaries({
    "p": G.problem(types="BBIC", min_n=1, max_n=4, max_lcs=0, allow_inf=False),
    "num": st.integers(1, 6),
    "fault": st.sampled_from(["none", "none", "solver"]),
})


def check_reject(s, ctx):
    p = s["p"]
    qp = M.build(p)
    opt = GoemansWilliamsonOptimizer(num_cuts=s["num"])
    binary = all(v["t"] == "B" for v in p["vars"])
    ctx.equal(bool(opt.is_compatible(qp)), binary, "exactly the binary programs are compatible")
    if not binary:
        ctx.raises(QiskitOptimizationError, lambda: opt.solve(qp), "other programs are rejected")
        ctx.nontrivial()
        ctx.label("rejected")
    elif s["fault"] == "solver":
        import cvxpy

        def broken(self, *a, **k):
            raise cvxpy.SolverError("injected")

        keep = cvxpy.Problem.solve
        cvxpy.Problem.solve = broken
        try:
            res = opt.solve(qp)
        finally:
            cvxpy.Problem.solve = keep
        ctx.equal(res.status, OptimizationResultStatus.FAILURE, "a failing SDP solver gives a FAILURE result")
        ctx.equal(res.variable_names, [v["n"] for v in p["vars"]], "variables of a failure")
        ctx.check(res.x is None, "a failure has no solution", x=res.x)
        ctx.nontrivial()
        ctx.label("fault")


SUBCHECKS = [
    Sub("cuts", case(), check, 900, 10000),
    Sub("large", large_case(), check_large, 60, 1000, hang_s=300),
    Sub("reject", reject_case, check_reject, 300, 2000),
]
