"""Shared helpers of the application checks: graphs as plain data, vectorised evaluation of read-back programs."""
import networkx as nx
import numpy as np
from hypothesis import strategies as st

from qiskit_optimization.algorithms import OptimizationResult, OptimizationResultStatus

from . import model as M


def all_bits(n):
    """every 0/1 row of length n"""
    k = np.arange(2 ** n)
    return ((k[:, None] >> np.arange(n)) & 1).astype(float)


def evaluate(spec, X):
    """objective and feasibility (constraints and bounds) of a read-back program at every row of X"""
    X = np.asarray(X, dtype=float)
    P = X.shape[0]

    def val(lin, quad):
        out = np.zeros(P)
        for i, v in lin:
            out += v * X[:, i]
        for i, j, v in quad:
            out += v * X[:, i] * X[:, j]
        return out

    obj = val(spec["lin"], spec["quad"]) + spec["const"]
    ok = np.ones(P, dtype=bool)
    for k, v in enumerate(spec["vars"]):
        ok &= (X[:, k] >= v["l"]) & (X[:, k] <= v["u"])
    for c in spec["lcs"] + spec["qcs"]:
        lhs = val(c["lin"], c.get("quad", []))
        r = c["r"]
        tol = 1e-9 + 1e-13 * sum(abs(t[-1]) for t in c["lin"] + c.get("quad", []))
        if c["s"] == "<=":
            ok &= lhs <= r + tol
        elif c["s"] == ">=":
            ok &= lhs >= r - tol
        else:
            ok &= np.abs(lhs - r) <= tol
    return obj, ok


def compare(ctx, qp, n, sense, X, want_obj, want_ok, what):
    """the program agrees with the definition at every row of X"""
    spec = M.read(qp)
    ctx.equal(len(spec["vars"]), n, what + ": number of variables")
    ctx.check(all(v["t"] == "B" for v in spec["vars"]), what + ": all variables are binary", types=[v["t"] for v in spec["vars"]])
    if sense is not None:
        ctx.equal(spec["sense"], sense, what + ": sense")
    obj, ok = evaluate(spec, X)
    bad = np.nonzero(ok != want_ok)[0]
    if len(bad):
        k = int(bad[0])
        ctx.fail(what + ": feasible points", x=X[k].astype(int).tolist(), program_says=bool(ok[k]), definition_says=bool(want_ok[k]))
    if want_obj is not None:
        sel = want_ok if sense is not None else np.ones(len(X), dtype=bool)
        diff = np.abs(obj - want_obj) > 1e-10 * max(1.0, sum(abs(v) for _, v in spec["lin"]) + sum(abs(q[2]) for q in spec["quad"]))
        bad = np.nonzero(diff & sel)[0]
        if len(bad):
            k = int(bad[0])
            ctx.fail(what + ": objective", x=X[k].astype(int).tolist(), program_says=float(obj[k]), definition_says=float(want_obj[k]))
    return spec


def forms(qp, x):
    """the accepted forms of a result: arrays of several dtypes and an OptimizationResult"""
    x = [int(v) for v in x]
    res = OptimizationResult(
        x=[float(v) for v in x], fval=0.0, variables=qp.variables, status=OptimizationResultStatus.SUCCESS
    )
    return [np.array(x), np.array(x, dtype=float), np.array(x, dtype=[bool, np.int8, np.float32][sum(x) % 3]), res]


@st.composite
def graph(draw, min_n=1, max_n=7, weights="mixed", loops=False, complete=False, scales=False):
    n = draw(st.integers(min_n, max_n))
    pairs = [[i, j] for i in range(n) for j in range(i + 1, n)]
    if complete:
        chosen = pairs
    else:
        dens = draw(st.sampled_from([0, 1, 1, 2, 3, 3]))
        keep = draw(st.lists(st.integers(0, 3), min_size=len(pairs), max_size=len(pairs)))
        chosen = [p for p, k in zip(pairs, keep) if k < dens + (dens == 3)]
    if loops and draw(st.integers(0, 5)) == 0:
        chosen = chosen + [[draw(st.integers(0, n - 1))] * 2]
    edges = []
    value = st.one_of(st.integers(-9, 9), st.integers(-16, 16).map(lambda k: k / 4), st.integers(1, 100))
    if scales and draw(st.integers(0, 2)) == 0:  # thirds, tiny and large weights side by side
        value = st.one_of(st.integers(-9, 9), st.integers(-20, 20).map(lambda k: k / 3), st.integers(-9, 9).map(lambda k: k * 1e-6), st.integers(-9, 9).map(lambda k: k * 100000))
    mode = draw(st.sampled_from(["none", "all", "some"] if weights == "mixed" else ["all"]))
    for i, j in chosen:
        if draw(st.booleans()):
            i, j = j, i
        w = draw(value)
        if weights == "positive":
            w = abs(w) + draw(st.sampled_from([0, 0, 0.5, 1]))
        if mode == "none" or (mode == "some" and draw(st.booleans())):
            w = None
        edges.append([i, j, w])
    order = draw(st.permutations(list(range(n))))
    eorder = draw(st.permutations(list(range(len(edges)))))
    return {"n": n, "edges": [edges[k] for k in eorder], "order": order,
            "form": draw(st.sampled_from(["graph", "graph", "array", "int_array", "edgelist", "shuffled"]))}


def weight(w):
    return 1 if w is None else w


def make(g):
    """the networkx graph, array or edge list of the plain data; (object, form used)"""
    form = g["form"]
    ws = [weight(w) for _, _, w in g["edges"]]
    if form in ("array", "int_array"):
        if any(w == 0 for w in ws) or any(i == j for i, j, _ in g["edges"]):
            form = "graph"  # a zero entry of an adjacency matrix is not an edge; loops are ambiguous there
        elif form == "int_array" and any(not float(w).is_integer() for w in ws):
            form = "array"
    if form == "edgelist" and {i for e in g["edges"] for i in e[:2]} != set(range(g["n"])):
        form = "graph"
    if form in ("array", "int_array"):
        a = np.zeros((g["n"], g["n"]), dtype=int if form == "int_array" else float)
        for (i, j, _), w in zip(g["edges"], ws):
            a[i, j] = a[j, i] = w
        return a, form
    if form == "edgelist":
        return [(i, j) if w is None else (i, j, {"weight": w}) for i, j, w in g["edges"]], form
    G = nx.Graph()
    G.add_nodes_from(g["order"] if form == "shuffled" else range(g["n"]))
    for i, j, w in g["edges"]:
        if w is None:
            G.add_edge(i, j)
        else:
            G.add_edge(i, j, weight=w)
    return G, form


def freeze(obj):
    if isinstance(obj, nx.Graph):
        return (list(obj.nodes), sorted((tuple(sorted(e[:2])), sorted(e[2].items())) for e in obj.edges(data=True)))
    if isinstance(obj, np.ndarray):
        return obj.tolist()
    return [(e[:2], e[2].get("weight") if len(e) > 2 else None) for e in obj]


# ------------------------------------------------------------------------------------------------------ larger graphs
@st.composite
def big_graph(draw, min_n=9, max_n=15, weights="mixed", complete=False, kinds=("int", "dyadic", "rough", "tiny", "huge", "none")):
    """shape and seed of a larger graph; expand() fills it in"""
    return {"n": draw(st.integers(min_n, max_n)), "dens": draw(st.sampled_from([1, 2, 4, 6, 8, 9])) if not complete else 10,
            "kind": draw(st.sampled_from(kinds)), "weights": weights, "seed": draw(st.integers(0, 2 ** 31)),
            "form": draw(st.sampled_from(["graph", "array", "int_array", "edgelist", "shuffled"]))}


def expand(b):
    import random

    from . import gen as G

    rnd = random.Random(b["seed"])
    n = b["n"]
    edges = []
    for i in range(n):
        for j in range(i + 1, n):
            if rnd.randrange(10) < b["dens"]:
                w = None if b["kind"] == "none" else G.number(rnd, b["kind"])
                if w is not None and b["weights"] == "positive":
                    w = abs(w)
                edges.append([j, i, w] if rnd.random() < 0.5 else [i, j, w])
    rnd.shuffle(edges)
    return {"n": n, "edges": edges, "order": rnd.sample(range(n), n), "form": b["form"]}


def rows(n, seed, edges=None, count=40):
    """0/1 rows: random ones of every density, few ones, few zeros, greedy stable sets / cliques, complements, one flip"""
    import random

    rnd = random.Random(seed)
    out = [[0] * n, [1] * n]
    for k in range(count):
        d = rnd.choice([0.1, 0.3, 0.5, 0.5, 0.7, 0.9])
        out.append([int(rnd.random() < d) for _ in range(n)])
    for i in range(n):
        out.append([int(k == i) for k in range(n)])
        out.append([int(k != i) for k in range(n)])
    half = [1] * (n // 2) + [0] * (n - n // 2)
    for _ in range(6):
        rnd.shuffle(half)
        out.append(list(half))
    if edges is not None:
        E = {tuple(sorted(e)) for e in edges}
        for k in range(8):
            for linked in (False, True):
                chosen = []
                for i in rnd.sample(range(n), n):
                    if all((tuple(sorted((i, j))) in E) == linked for j in chosen):
                        chosen.append(i)
                x = [int(i in chosen) for i in range(n)]
                f = list(x)
                t = rnd.randrange(n)
                f[t] = 1 - f[t]
                out += [x, f, [1 - v for v in x], [1 - v for v in f]]
    return np.array(out, dtype=float)
