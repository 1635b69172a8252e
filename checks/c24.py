"""C24: drawing a graph application shows its graph and highlights exactly the given solution."""
import random

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from qiskit_optimization.applications import (  # noqa: E402
    Clique,
    GraphPartition,
    Maxcut,
    StableSet,
    Tsp,
    VehicleRouting,
    VertexCover,
)

from vlib import apps as A  # noqa: E402
from vlib import model as M  # noqa: E402
from vlib.core import Sub  # noqa: E402

PROPERTY = "C24"
RULE = (
    "Random graphs of 1-9 (colourings: 14) nodes in every input form, all seven graph applications, a generated assignment (for TSP and "
    "routing: a generated tour or plan) as array or result, with given or automatic positions; the figure's node colours "
    "and line segments are read back. Non-trivial: the assignment has both values (node colours) or the plan has at least "
    "three edges (tours)."
)
NODE = {"maxcut": Maxcut, "partition": GraphPartition, "stable": StableSet, "cover": VertexCover, "clique": Clique}


@st.composite
def case(draw):
    app = draw(st.sampled_from(sorted(NODE) + ["tsp", "vrp"]))
    if app in NODE:
        g = draw(A.graph(max_n=draw(st.sampled_from([6, 6, 14]))))
        return {"app": app, "g": g, "x": draw(st.lists(st.integers(0, 1), min_size=g["n"], max_size=g["n"])),
                "form": draw(st.integers(0, 2)), "pos": draw(st.integers(0, 2)) > 0, "plain": draw(st.integers(0, 4)) == 0}
    g = draw(A.graph(min_n=2, max_n=9, weights="positive", complete=True))
    return {"app": app, "g": g, "pick": draw(st.integers(0, 10 ** 4)), "K": draw(st.integers(1, g["n"] - 1)),
            "depot": draw(st.integers(0, g["n"] - 1)), "form": draw(st.integers(0, 2)), "pos": draw(st.integers(0, 2)) > 0,
            "plain": draw(st.integers(0, 4)) == 0}


def picture(app, arg, pos):
    """(node colours by offset, list of (segment end points, colour)) of what is drawn"""
    plt.close("all")
    fig = plt.figure()
    try:
        if arg is None:
            app.draw(pos=pos) if pos is not None else app.draw()
        elif pos is None:
            app.draw(arg)
        else:
            app.draw(arg, pos)
        nodes, lines = [], []
        texts = []
        for ax in fig.axes:
            for c in ax.collections:
                if "Path" in type(c).__name__:
                    c.update_scalarmappable()
                    off = np.asarray(c.get_offsets())
                    col = np.asarray(c.get_facecolor())
                    for k in range(len(off)):
                        nodes.append((tuple(np.round(off[k], 9)), tuple(np.round(col[k % len(col)], 6))))
                elif "Line" in type(c).__name__:
                    c.update_scalarmappable()
                    col = np.asarray(c.get_colors())
                    segs = c.get_segments()
                    lines.append([((tuple(np.round(seg[0], 9)), tuple(np.round(seg[-1], 9))),
                                   tuple(np.round(col[k % len(col)], 6))) for k, seg in enumerate(segs)])
            texts += [(tuple(np.round(t.get_position(), 9)), t.get_text()) for t in ax.texts]
        return nodes, lines, texts
    finally:
        plt.close("all")


def check(s, ctx):
    g, n = s["g"], s["g"]["n"]
    obj, form = A.make(g)
    before = A.freeze(obj)
    edges = {tuple(sorted(e[:2])) for e in g["edges"]}
    pos = {i: np.array([float(i), float((i * i * 7) % 11)]) for i in range(n)} if s["pos"] else None
    ctx.label(*(["K={}".format(s["K"])] if s["app"] == "vrp" else []))
    ctx.label(s["app"], "pos" if s["pos"] else "auto", form)
    routes = None
    if s["app"] in NODE:
        app = NODE[s["app"]](obj)
        x = s["x"]
        ctx.nontrivial(len(set(x)) == 2)
    elif s["app"] == "tsp":
        app = Tsp(obj)
        p = random.Random(s["pick"]).sample(range(n), n)
        x = [0] * (n * n)
        for k, i in enumerate(p):
            x[i * n + k] = 1
        routes = [[(p[k], p[(k + 1) % n]) for k in range(n)]]
        ctx.nontrivial(n >= 3)
    else:
        app = VehicleRouting(obj, s["K"], s["depot"])
        # the other nodes in any order, cut into K routes
        rnd = random.Random(s["pick"])
        rest = rnd.sample([i for i in range(n) if i != s["depot"]], n - 1)
        cuts = [0] + sorted(rnd.sample(range(1, n - 1), s["K"] - 1)) + [n - 1]
        e = []
        for a, b in zip(cuts, cuts[1:]):
            stops = [s["depot"]] + rest[a:b] + [s["depot"]]
            e += list(zip(stops, stops[1:]))
        var = {}
        for i in range(n):
            for j in range(n):
                if i != j:
                    var[(i, j)] = len(var)
        x = [0] * len(var)
        for ed in e:
            x[var[ed]] = 1
        nxt = {a: b for a, b in e if a != s["depot"]}
        routes = []
        for a, b in e:
            if a == s["depot"]:
                r = [(a, b)]
                while b != s["depot"]:
                    r.append((b, nxt[b]))
                    b = nxt[b]
                routes.append(r)
        ctx.nontrivial(len(e) >= 3)
    qp = app.to_quadratic_program()
    arg = None if s["plain"] else A.forms(qp, x)[s["form"]]
    nodes, lines, texts = picture(app, arg, pos)
    ctx.equal(len(nodes), n, "every node is drawn once")
    where = {o: lab for o, lab in texts}
    ctx.equal(sorted(where.values()), sorted(str(i) for i in range(n)), "every node is labelled")
    at = {}
    for o, c in nodes:
        ctx.check(o in where, "labels sit on their nodes")
        at[int(where[o])] = (o, c)
    if pos is not None:
        for i in range(n):
            ctx.all_close(at[i][0], pos[i], "nodes are drawn at the given positions")
    byoff = {o: i for i, (o, _) in at.items()}
    seen = [[((byoff[a], byoff[b]), c) for (a, b), c in grp] for grp in lines if grp]
    plain = seen[0] if seen else []
    if edges:
        ctx.equal(sorted(tuple(sorted(e)) for e, _ in plain), sorted(edges), "all edges of the graph are drawn")
    if s["plain"]:
        ctx.equal(len({c for _, c in at.values()}), 1, "without a solution all nodes look alike")
        ctx.check(len(seen) <= 1, "without a solution no edge is highlighted")
    elif s["app"] in NODE:
        cols = {}
        for i in range(n):
            cols.setdefault(x[i], set()).add(at[i][1])
        ctx.check(all(len(v) == 1 for v in cols.values()), "equal values, equal colours", x=x)
        if len(cols) == 2:
            ctx.check(not (cols[0] & cols[1]), "different values, different colours", x=x)
        ctx.check(len(seen) <= 1, "no edge is highlighted")
    else:
        ctx.equal(len(seen), 2, "the tour is drawn over the graph")
        want = sorted(tuple(sorted(e)) for r in routes for e in r)
        ctx.equal(sorted(tuple(sorted(e)) for e, _ in seen[1]), want, "exactly the edges of the tour are highlighted")
        if s["app"] == "vrp":
            colour = {}
            for r in routes:
                # a route of one stop is the same line there and back
                cs = {c for e in r for f, c in seen[1] if tuple(sorted(f)) == tuple(sorted(e))}
                ctx.equal(len(cs), 1, "one colour per route", routes=routes)
                colour.setdefault(cs.pop(), []).append(r)
            ctx.equal(len(colour), len(routes), "different routes, different colours")
    ctx.equal(A.freeze(obj), before, "the given graph is not changed")
    ctx.equal(M.read(app.to_quadratic_program()), M.read(qp), "drawing does not change the application")


SUBCHECKS = [Sub("draw", case(), check, 1200, 8000)]
