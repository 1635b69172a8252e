"""C22: instance sources (files, random generators) and reading of measured states."""
import os
import tempfile
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

from qiskit.opflow import DictStateFn, StateFn, VectorStateFn
from qiskit.utils import algorithm_globals
from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.applications import Maxcut, OptimizationApplication, Tsp, VehicleRouting

from vlib.core import Sub

PROPERTY = "C22"
RULE = (
    "gset: generated Gset files (1-14 nodes, any edges and integer weights, blank-padded). tsplib: generated TSPLIB "
    "files (header fields in several spellings and orders, nodes in any order, integer and decimal coordinates, with "
    "and without EOF), and files of other types, which must be rejected. random: instance generators with repeated, "
    "zero and missing seeds. state: counts, state vectors and opflow states with a unique most likely bitstring. "
    "Non-trivial: two or more edges with a weight other than 1 (gset); 3 or more nodes, or a rejection (tsplib); "
    "seeded (random); a non-palindromic bitstring (state)."
)


def with_file(text, fn):
    d = tempfile.mkdtemp(prefix="verif_c22_")
    path = os.path.join(d, "instance.txt")
    try:
        with open(path, "w") as fh:
            fh.write(text)
        return fn(path)
    finally:
        os.unlink(path)
        os.rmdir(d)


@st.composite
def gset_case(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(9, 14)))
    pairs = [[i, j] for i in range(n) for j in range(i + 1, n)]
    keep = [p for p in pairs if draw(st.booleans())]
    return {
        "n": n,
        "edges": [(p if draw(st.booleans()) else p[::-1]) + [draw(st.sampled_from([1, -1, 1, 2, 7, -30, 100, 123456789]))] for p in keep],
        "sep": draw(st.sampled_from([" ", "  ", "\t"])),
        "last": draw(st.booleans()),
        "seed": draw(st.integers(0, 9)),
    }


def check_gset(s, ctx):
    lines = ["{}{}{}".format(s["n"], s["sep"], len(s["edges"]))]
    lines += [s["sep"].join(str(v) for v in (i + 1, j + 1, w)) for i, j, w in s["edges"]]
    w = with_file("\n".join(lines) + ("\n" if s["last"] else ""), Maxcut.parse_gset_format)
    want = np.zeros((s["n"], s["n"]))
    for i, j, v in s["edges"]:
        want[i, j] = want[j, i] = v
    ctx.equal(np.asarray(w).tolist(), want.tolist(), "adjacency matrix of the Gset file")
    if s["edges"] and all(v for _, _, v in s["edges"]):
        # the matrix is an instance: its cut values are those of the file
        app = Maxcut(np.asarray(w))
        qp = app.to_quadratic_program()
        x = [(s["seed"] + i * 3) % 2 for i in range(s["n"])]
        ctx.close(qp.objective.evaluate(x), sum(v for i, j, v in s["edges"] if x[i] != x[j]), "cut value of the read instance")
    ctx.nontrivial(sum(v != 1 for _, _, v in s["edges"]) >= 2)


@st.composite
def tsplib_case(draw):
    n = draw(st.one_of(st.integers(2, 7), st.integers(8, 13), st.integers(14, 40)))
    kind = draw(st.sampled_from(["int", "int", "quarter", "exp"]))
    c = draw(st.sampled_from([st.integers(-50, 200), st.integers(0, 9), st.integers(-10000, 30000), st.integers(-900, -700)]))
    pts = draw(st.lists(st.tuples(c, c).map(list), min_size=n, max_size=n, unique_by=tuple))
    if kind == "quarter":
        pts = [[a / 4, b / 4] for a, b in pts]
    return {
        "pts": pts,
        "fmt": "{:.5e}" if kind == "exp" else "{}",
        "colon": draw(st.sampled_from([": ", " : ", ":", " :  "])),
        "name": draw(st.sampled_from(["berlin", "a b", "x.tsp"])),
        "comment": draw(st.booleans()),
        "head": draw(st.permutations([0, 1, 2])),
        "order": draw(st.permutations(list(range(n)))),
        "eof": draw(st.sampled_from(["EOF\n", "EOF", "", "\nEOF\n"])),
        "type": draw(st.sampled_from(["TSP"] * 5 + ["ATSP", "TOUR", "CVRP"])),
        "ew": draw(st.sampled_from(["EUC_2D"] * 5 + ["EUC_3D", "GEO", "EXPLICIT", "CEIL_2D"])),
        "pad": draw(st.sampled_from(["", " "])),
    }


def check_tsplib(s, ctx):
    n = len(s["pts"])
    head = [
        "TYPE{}{}{}".format(s["colon"], s["type"], s["pad"]),
        "DIMENSION{}{}".format(s["colon"], n),
        "EDGE_WEIGHT_TYPE{}{}{}".format(s["colon"], s["ew"], s["pad"]),
    ]
    lines = ["NAME{}{}".format(s["colon"], s["name"])]
    if s["comment"]:
        lines.append("COMMENT{}a TYPE of comment".format(s["colon"]))
    lines += [head[k] for k in s["head"]]
    lines.append("NODE_COORD_SECTION")
    for k in s["order"]:
        lines.append(" ".join([str(k + 1)] + [s["fmt"].format(v) for v in s["pts"][k]]))
    text = "\n".join(lines) + "\n" + s["eof"]
    if s["type"] != "TSP" or s["ew"] != "EUC_2D":
        ctx.label("rejected")
        ctx.raises(QiskitOptimizationError, lambda: with_file(text, Tsp.parse_tsplib_format), "other problem and weight types are rejected")
        ctx.nontrivial()
        return
    tsp = with_file(text, Tsp.parse_tsplib_format)
    ctx.check(isinstance(tsp, Tsp), "a Tsp instance is returned")
    weights(ctx, tsp.graph, {i: p for i, p in enumerate(s["pts"])}, n)
    for i, p in enumerate(s["pts"]):
        ctx.equal([float(v) for v in tsp.graph.nodes[i]["pos"]], [float(v) for v in p], "coordinates of the nodes", node=i)
    ctx.label("accepted")
    ctx.nontrivial(n >= 3)


def weights(ctx, graph, pts, n):
    """complete graph on 0..n-1 whose weights are the rounded Euclidean distances"""
    ctx.equal(set(graph.nodes), set(range(n)), "nodes")
    ctx.equal({tuple(sorted(e)) for e in graph.edges}, {(i, j) for i in range(n) for j in range(i + 1, n)}, "all pairs are connected")
    for i in range(n):
        for j in range(i + 1, n):
            d = ((pts[i][0] - pts[j][0]) ** 2 + (pts[i][1] - pts[j][1]) ** 2) ** 0.5
            w = graph.edges[i, j]["weight"]
            # the nearest integer (either one at a tie)
            ctx.check(float(w).is_integer() and abs(w - d) <= 0.5 + 1e-9, "weights are rounded Euclidean distances", pair=(i, j), weight=float(w), distance=d)


random_case = st.fixed_dictionaries({
    "app": st.sampled_from(["tsp", "vrp", "graph"]),
    "n": st.one_of(st.integers(2, 7), st.integers(8, 14)),
    "low": st.integers(-20, 20),
    "span": st.integers(1, 120),
    "seed": st.sampled_from([0, 0, 1, 2, 123, 2 ** 31 - 1]),
    "between": st.integers(0, 3),
    "cfg": st.tuples(st.integers(1, 3), st.integers(0, 1)).map(list),
    "edges": st.one_of(st.integers(0, 21), st.integers(22, 91)),
    "kw": st.booleans(),
})


def inst(g):
    return (sorted(g.nodes), sorted((tuple(sorted(e[:2])), sorted((k, float(v)) for k, v in e[2].items())) for e in g.edges(data=True)))


def check_random(s, ctx):
    n, low, high = s["n"], s["low"], s["low"] + s["span"]

    def make(seed):
        if s["app"] == "tsp":
            return Tsp.create_random_instance(n, low, high, seed) if not s["kw"] else Tsp.create_random_instance(n=n, low=low, high=high, seed=seed)
        if s["app"] == "vrp":
            return VehicleRouting.create_random_instance(n, low, high, seed, s["cfg"][0], s["cfg"][1])
        return None

    def graph(seed):
        if s["app"] == "graph":
            return Maxcut.random_graph(n, s["edges"], seed)
        return make(seed).graph

    algorithm_globals.random_seed = 5
    a = graph(s["seed"])
    for _ in range(s["between"]):
        algorithm_globals.random.random()
        graph(None)
    b = graph(s["seed"])
    ctx.equal(inst(a), inst(b), "the same seed gives the same instance")
    for g in (a, graph(None)):
        ctx.equal(set(g.nodes), set(range(n)), "nodes")
        if s["app"] == "graph":
            ctx.equal(g.number_of_edges(), min(s["edges"], n * (n - 1) // 2), "number of edges")
        else:
            pos = {i: g.nodes[i]["pos"] for i in g.nodes}
            ctx.check(all(low <= v <= high for p in pos.values() for v in p), "coordinates lie in the given range", pos=repr(pos))
            weights(ctx, g, pos, n)
    if s["app"] == "vrp":
        app = make(s["seed"])
        ctx.equal((app.num_vehicles, app.depot), tuple(s["cfg"]), "vehicles and depot are kept")
    if s["app"] == "tsp":
        others = [inst(Tsp.create_random_instance(6, 0, 1000, q).graph) for q in (0, 1, 2)]
        ctx.check(others[0] != others[1] and others[1] != others[2], "different seeds give different instances")
    ctx.label(s["app"], "seed0" if s["seed"] == 0 else "seed")
    ctx.nontrivial()


@st.composite
def state_case(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(7, 12)))
    top = draw(st.integers(0, 2 ** n - 1))
    kind = draw(st.sampled_from(["dict", "ordered", "vector", "complex", "dictfn", "vectorfn", "probdict"]))
    m = draw(st.integers(1, min(6, 2 ** n)))
    others = draw(st.lists(st.integers(0, 2 ** n - 1), max_size=m, unique=True))
    return {"n": n, "top": top, "kind": kind, "others": [[k, draw(st.integers(1, 49)), draw(st.integers(0, 7))] for k in others if k != top],
            "at": draw(st.integers(0, 6)), "ph": draw(st.integers(0, 7))}


def check_state(s, ctx):
    n, top = s["n"], s["top"]
    bits = lambda k: format(k, "0{}b".format(n))  # noqa: E731 -- qiskit order: qubit 0 is the last character
    items = [(k, c) for k, c, _ in s["others"]]
    items.insert(min(s["at"], len(items)), (top, 50))
    if s["kind"] in ("dict", "ordered", "probdict"):
        f = 1 if s["kind"] != "probdict" else 1 / sum(c for _, c in items)
        arg = (OrderedDict if s["kind"] == "ordered" else dict)([(bits(k), c * f) for k, c in items])
    else:
        ph = dict((k, p) for k, _, p in s["others"])
        v = np.zeros(2 ** n, dtype=complex)
        weak = s["kind"].endswith("fn")  # a sampled state: the others are made rare
        for k, c in items:
            amp = c ** 0.5 if not weak or k == top else 0.2
            v[k] = amp * np.exp(1j * np.pi / 4 * ph.get(k, s["ph"]))
        v /= np.linalg.norm(v)
        if s["kind"] == "vector":
            arg = np.abs(v) * np.where(np.arange(2 ** n) % 3 == 0, -1, 1)
        elif s["kind"] == "complex":
            arg = v
        elif s["kind"] == "vectorfn":
            arg = VectorStateFn(v)
        else:
            arg = StateFn({bits(k): complex(v[k]) for k, _ in items})
            ctx.check(isinstance(arg, DictStateFn), "opflow gives a DictStateFn")
    algorithm_globals.random_seed = 11
    x = OptimizationApplication.sample_most_likely(arg)
    ctx.equal([int(b) for b in x], [(top >> i) & 1 for i in range(n)], "bit i of the most likely state is qubit i", kind=s["kind"])
    ctx.check(isinstance(x, np.ndarray), "an array is returned")
    ctx.label(s["kind"])
    b = bits(top)
    ctx.nontrivial(b != b[::-1])


SUBCHECKS = [
    Sub("gset", gset_case(), check_gset, 800, 8000),
    Sub("tsplib", tsplib_case(), check_tsplib, 1000, 10000),
    Sub("random", random_case, check_random, 600, 6000),
    Sub("state", state_case(), check_state, 1200, 12000),
]
