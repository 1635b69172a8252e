"""C19: the graph applications model their graph problem at every assignment."""
import numpy as np
from hypothesis import strategies as st

from qiskit_optimization.applications import Clique, GraphPartition, Maxcut, StableSet, VertexCover

from vlib import apps as A
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C19"
RULE = (
    "Random graphs of 1-8 nodes (isolated nodes, loops, missing, negative, fractional and zero weights) given as "
    "networkx graph with nodes in any order, adjacency array or edge list; every one of the 2**n assignments is "
    "compared with the definition of max-cut, graph partition, stable set, vertex cover or clique, and interpreted. "
    "large: 9-15 nodes, weights also thirds, tiny and large ones; random, greedy and perturbed assignments. "
    "Non-trivial: the graph has an edge and, where the problem has constraints, both feasible and infeasible "
    "assignments."
)


@st.composite
def case(draw):
    app = draw(st.sampled_from(["maxcut", "partition", "stable", "cover", "clique"]))
    g = draw(A.graph(max_n=8, loops=True, scales=True))
    return {
        "app": app,
        "g": g,
        "sizes": draw(st.lists(st.one_of(st.none(), st.integers(0, g["n"])), min_size=1, max_size=3)),
        "late": draw(st.booleans()),
        "probe": draw(st.lists(st.integers(0, 2 ** g["n"] - 1), min_size=2, max_size=4)),
    }


def cut_value(g, X):
    out = np.zeros(len(X))
    for i, j, w in g["edges"]:
        out += A.weight(w) * (X[:, i] != X[:, j])
    return out


def check(s, ctx):
    compare(s, s["g"], A.all_bits(s["g"]["n"]), ctx)


def check_large(s, ctx):
    g = A.expand(s["b"])
    X = A.rows(g["n"], s["b"]["seed"] + 1, [e[:2] for e in g["edges"]])
    ctx.label(s["b"]["kind"])
    compare(dict(s, probe=[k % len(X) for k in s["probe"]]), g, X, ctx)


@st.composite
def large_case(draw):
    b = draw(A.big_graph())
    return {"app": draw(st.sampled_from(["maxcut", "partition", "stable", "cover", "clique"])), "b": b,
            "sizes": draw(st.lists(st.one_of(st.none(), st.integers(0, 6)), min_size=1, max_size=2)),
            "late": draw(st.booleans()), "probe": draw(st.lists(st.integers(0, 999), min_size=3, max_size=5))}


def compare(s, g, X, ctx):
    n = g["n"]
    obj, form = A.make(g)
    before = A.freeze(obj)
    ones = X.sum(axis=1)
    ctx.label(s["app"], form)
    loops = any(i == j for i, j, _ in g["edges"])
    edges = [(i, j) for i, j, _ in g["edges"]]
    both = np.zeros(len(X), dtype=int)  # edges inside the chosen set
    none = np.zeros(len(X), dtype=int)  # edges without a chosen end
    for i, j in edges:
        both += (X[:, i] == 1) & (X[:, j] == 1)
        none += (X[:, i] == 0) & (X[:, j] == 0)

    if s["app"] == "clique":
        size = s["sizes"][0]
        app = Clique(obj, size) if not s["late"] else Clique(obj)
    else:
        app = {"maxcut": Maxcut, "partition": GraphPartition, "stable": StableSet, "cover": VertexCover}[s["app"]](obj)

    def mine(k):
        x = X[k].astype(int)
        if s["app"] in ("maxcut", "partition"):
            return [[i for i in range(n) if not x[i]], [i for i in range(n) if x[i]]]
        return [i for i in range(n) if x[i]]

    def interp(qp):
        for k in s["probe"] + [0, len(X) - 1]:
            for r in A.forms(qp, X[k]):
                got = app.interpret(r)
                ctx.equal([list(v) if isinstance(v, (list, tuple)) else v for v in got], mine(k), "interpretation", x=X[k].tolist())
        ctx.raises(TypeError, lambda: app.interpret([0.0] * n), "a plain list is not a result")

    nontriv = bool(edges)
    if s["app"] == "clique":
        missing = np.zeros(len(X), dtype=int)
        E = {tuple(sorted(e)) for e in edges}
        for i in range(n):
            for j in range(i + 1, n):
                if (i, j) not in E:
                    missing += (X[:, i] == 1) & (X[:, j] == 1)
        for k, size in enumerate(s["sizes"]):
            if k or s["late"]:
                app.size = size
            ctx.equal(app.size, size, "the size is kept")
            ok = missing == 0
            if size is not None:
                ok = ok & (ones == size)
                ctx.label("sized")
            qp = app.to_quadratic_program()
            A.compare(ctx, qp, n, None if size is not None else "max", X, None if size is not None else ones, ok, "clique")
            interp(qp)
            nontriv = nontriv and ok.any() and not ok.all()
    else:
        for _ in range(2):
            qp = app.to_quadratic_program()
            if s["app"] == "maxcut":
                A.compare(ctx, qp, n, "max", X, cut_value(g, X), np.ones(len(X), dtype=bool), "max-cut")
            elif s["app"] == "partition":
                A.compare(ctx, qp, n, "min", X, cut_value(g, X), ones == n // 2, "graph partition")
            elif s["app"] == "stable":
                A.compare(ctx, qp, n, "max", X, ones, both == 0, "stable set")
            else:
                A.compare(ctx, qp, n, "min", X, ones, none == 0, "vertex cover")
            interp(qp)
        if s["app"] == "maxcut":
            for k in s["probe"]:
                x = X[k].astype(int)
                got = Maxcut.get_gset_result(x)
                ctx.equal({int(a): int(b) for a, b in got.items()}, {i + 1: 1 - int(x[i]) for i in range(n)}, "Gset result")
        if s["app"] in ("stable", "cover"):
            ok = both == 0 if s["app"] == "stable" else none == 0
            nontriv = nontriv and not ok.all()
    ctx.equal(A.freeze(obj), before, "the given graph is not changed")
    ctx.equal(set(app.graph.nodes), set(range(n)), "nodes of the application's graph")
    ctx.equal({tuple(sorted(e)) for e in app.graph.edges}, {tuple(sorted(e)) for e in edges}, "edges of the application's graph")
    for i, j, w in g["edges"]:
        if w is not None and not loops:
            ctx.equal(float(app.graph.edges[i, j]["weight"]), float(w), "weights of the application's graph")
    ctx.nontrivial(nontriv)


@st.composite
def mutate_case(draw):
    g = draw(A.graph(min_n=2, max_n=6))
    g["form"] = "graph"
    return {"app": draw(st.sampled_from(["maxcut", "partition", "stable", "cover", "clique"])), "g": g,
            "edit": [draw(st.integers(0, g["n"] - 1)), draw(st.integers(0, g["n"] - 1))], "w": draw(st.integers(2, 9))}


def check_mutate(s, ctx):
    """edits of the caller's graph after construction do not reach the application"""
    obj, _ = A.make(s["g"])
    cls = {"maxcut": Maxcut, "partition": GraphPartition, "stable": StableSet, "cover": VertexCover, "clique": Clique}[s["app"]]
    app = cls(obj)
    want = M.read(cls(A.make(s["g"])[0]).to_quadratic_program())
    i, j = s["edit"]
    if i != j:
        if obj.has_edge(i, j):
            obj.edges[i, j]["weight"] = 77
            if s["w"] % 2:
                obj.remove_edge(i, j)
        else:
            obj.add_edge(i, j, weight=s["w"])
        ctx.nontrivial()
    else:
        obj.remove_node(i)
        ctx.nontrivial()
    ctx.equal(M.read(app.to_quadratic_program()), want, "edits of the caller's graph do not reach the application")


SUBCHECKS = [
    Sub("assignments", case(), check, 3000, 40000),
    Sub("large", large_case(), check_large, 500, 6000),
    Sub("isolation", mutate_case(), check_mutate, 400, 4000),
]
