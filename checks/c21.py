"""C21: the TSP and vehicle routing applications: feasible points are tours, objective is their length."""
from itertools import permutations, combinations

import networkx as nx
import numpy as np
from hypothesis import strategies as st

from qiskit_optimization.applications import Tsp, VehicleRouting

from vlib import apps as A
from vlib.core import Sub

PROPERTY = "C21"
RULE = (
    "Complete graphs of 2-5 nodes with positive, zero (graph form only) and fractional weights, in every input form "
    "and node order; TSP with n<=4 and routing with n<=4 are compared at every assignment, larger ones at every tour "
    "plan plus generated perturbations of plans; vehicles 1-3, any depot, both changed later; with 5-7 nodes, generated cycle covers (routes of the depot and closed loops of any size). Non-trivial: the "
    "compared assignments include feasible and infeasible ones and at least two different lengths."
)


@st.composite
def case(draw):
    app = draw(st.sampled_from(["tsp", "vrp"]))
    g = draw(A.graph(min_n=2, max_n=5 if app == "vrp" else 5, weights="positive", complete=True, scales=True))
    n = g["n"]
    s = {"app": app, "g": g}
    m = n * n if app == "tsp" else n * (n - 1)
    if app == "vrp":
        s["cfg"] = [[draw(st.integers(1, 3)), draw(st.integers(0, n - 1))] for _ in range(draw(st.integers(1, 2)))]
        s["default"] = draw(st.integers(0, 4)) == 0
    s["flips"] = [[draw(st.integers(0, 10 ** 6)), draw(st.lists(st.integers(0, m - 1), min_size=1, max_size=4))] for _ in range(12)]
    s["probe"] = draw(st.lists(st.integers(0, 2 ** min(m, 20) - 1), min_size=3, max_size=5))
    return s


def plans(n, K, depot):
    """all edge sets of K routes from the depot through every other node exactly once"""
    rest = [i for i in range(n) if i != depot]
    out = set()
    if K > len(rest):
        return []
    for perm in permutations(rest):
        for cuts in combinations(range(1, len(rest)), K - 1):
            c = [0] + list(cuts) + [len(rest)]
            edges = []
            for a, b in zip(c, c[1:]):
                stops = [depot] + list(perm[a:b]) + [depot]
                edges += list(zip(stops, stops[1:]))
            out.add(tuple(sorted(edges)))
    return [list(e) for e in sorted(out)]


def check(s, ctx):
    g, n = s["g"], s["g"]["n"]
    obj, form = A.make(g)
    before = A.freeze(obj)
    W = np.zeros((n, n))
    for i, j, w in g["edges"]:
        W[i, j] = W[j, i] = A.weight(w)
    ctx.label(s["app"], form, "n={}".format(n))
    if s["app"] == "tsp":
        tsp(s, ctx, obj, W, n)
    else:
        vrp(s, ctx, obj, W, n)
    ctx.equal(A.freeze(obj), before, "the given graph is not changed")


def perturbed(s, base, m):
    X = [list(b) for b in base]
    if base:
        for k, fl in s["flips"]:
            x = list(base[k % len(base)])
            for f in fl:
                x[f] = 1 - x[f]
            X.append(x)
    X.append([0] * m)
    X.append([1] * m)
    for k in s["probe"]:
        X.append([(k >> (b % 20)) & 1 for b in range(m)])
    return np.array(X, dtype=float)


def tsp(s, ctx, obj, W, n):
    app = Tsp(obj)
    m = n * n
    perms = list(permutations(range(n)))
    base = []
    for p in perms:  # p[k] = city at step k; variable (i, k) at position i * n + k
        x = [0] * m
        for k, i in enumerate(p):
            x[i * n + k] = 1
        base.append(x)
    X = A.all_bits(m) if n <= 3 else perturbed(s, base, m)
    T = X.reshape(len(X), n, n)
    ok = (T.sum(axis=1) == 1).all(axis=1) & (T.sum(axis=2) == 1).all(axis=1)
    length = np.zeros(len(X))
    for k in np.nonzero(ok)[0]:
        p = [int(np.argmax(T[k][:, t])) for t in range(n)]
        length[k] = sum(W[p[t], p[(t + 1) % n]] for t in range(n))
    for _ in range(2):
        qp = app.to_quadratic_program()
        A.compare(ctx, qp, m, "min", X, length, ok, "TSP")
    ctx.nontrivial(n >= 3 and len(set(np.round(length[ok], 9))) >= (2 if n >= 4 else 1))
    for p, x in list(zip(perms, base))[:: max(1, len(base) // 6)]:
        for r in A.forms(qp, x):
            ctx.equal([int(v) for v in app.interpret(r)], list(p), "the interpreted route", x=x)
        ctx.close(Tsp.tsp_value(app.interpret(np.array(x)), W), sum(W[p[t], p[(t + 1) % n]] for t in range(n)), "tsp_value of the route")
    asym = W + np.arange(n * n).reshape(n, n)
    for p in perms[:: max(1, len(perms) // 4)]:
        for z in (list(p), list(p)[: max(1, n - 1)]):
            ctx.close(Tsp.tsp_value(z, asym), sum(asym[z[t], z[(t + 1) % len(z)]] for t in range(len(z))), "tsp_value", z=z)
    for x in X[-len(s["probe"]) - 6:]:
        t = x.reshape(n, n)
        want = []
        for k in range(n):
            step = [i for i in range(n) if t[i, k]]
            want.append(step[0] if len(step) == 1 else step)
        ctx.equal(app.interpret(x.astype(int)), want, "interpretation of an arbitrary assignment", x=x.tolist())
    ctx.raises(TypeError, lambda: app.interpret([0.0] * m), "a plain list is not a result")


def vrp(s, ctx, obj, W, n):
    m = n * (n - 1)
    pos = {}
    for i in range(n):
        for j in range(n):
            if i != j:
                pos[(i, j)] = len(pos)
    app = None
    for K, depot in s["cfg"]:
        if app is None:
            if s["default"]:
                K, depot = 2, 0
                app = VehicleRouting(obj)
            else:
                app = VehicleRouting(obj, K, depot)
        else:
            app.num_vehicles = K
            app.depot = depot
        ctx.equal((app.num_vehicles, app.depot), (K, depot), "vehicles and depot are kept")
        P = plans(n, K, depot)
        base = []
        for e in P:
            x = [0] * m
            for ed in e:
                x[pos[ed]] = 1
            base.append(x)
        good = {tuple(b) for b in base}
        if n <= 4:
            X = A.all_bits(m)
        else:
            # plans, perturbed plans, plans of other vehicle numbers, and plans with a separate loop
            other = []
            for K2 in (1, 2, 3):
                for e in plans(n, K2, depot)[:8]:
                    x = [0] * m
                    for ed in e:
                        x[pos[ed]] = 1
                    other.append(x)
            rest = [i for i in range(n) if i != depot]
            for a, b in combinations(rest, 2):
                left = [i for i in rest if i not in (a, b)]
                for e in plans(len(left) + 1, min(K, len(left)), 0)[:4]:
                    ids = [depot] + left
                    x = [0] * m
                    for u, v in e:
                        x[pos[(ids[u], ids[v])]] = 1
                    x[pos[(a, b)]] = x[pos[(b, a)]] = 1
                    other.append(x)
            X = np.vstack([perturbed(s, base, m), np.array(other, dtype=float)])
        ok = np.array([tuple(int(v) for v in x) in good for x in X])
        w = np.zeros(m)
        for (i, j), k in pos.items():
            w[k] = W[i, j]
        length = X @ w
        qp = app.to_quadratic_program()
        A.compare(ctx, qp, m, "min", X, length, ok, "vehicle routing")
        ctx.nontrivial(ok.any() and not ok.all() and len(set(np.round(length[ok], 9))) >= 2)
        ctx.label("feasible" if ok.any() else "too many vehicles", "K={}".format(K), "depot" if depot else "depot0")
        for x in base[:: max(1, len(base) // 8)]:
            for r in A.forms(qp, x):
                routes = app.interpret(r)
                ctx.equal(len(routes), K, "one route per vehicle", x=x)
                flat = []
                for route in routes:
                    route = [tuple(int(v) for v in e) for e in route]
                    ctx.check(route and route[0][0] == depot and route[-1][1] == depot, "routes start and end at the depot", route=route)
                    for a, b in zip(route, route[1:]):
                        ctx.check(a[1] == b[0] and b[0] != depot, "a route is connected and returns to the depot once", route=route)
                    flat += route
                ctx.equal(sorted(flat), sorted(e for e, k in pos.items() if x[k]), "routes use exactly the chosen edges", x=x)
        for x in X[-len(s["probe"]):]:
            routes = app.interpret(x.astype(int))
            flat = [tuple(int(v) for v in e) for route in routes for e in route]
            ctx.equal(sorted(flat), sorted(e for e, k in pos.items() if x[k]), "every chosen edge is in exactly one route", x=x.tolist())
    ctx.raises(TypeError, lambda: app.interpret([0.0] * m), "a plain list is not a result")


@st.composite
def covers_case(draw):
    app = draw(st.sampled_from(["vrp", "vrp", "tsp"]))
    g = draw(A.graph(min_n=5, max_n=7, weights="positive", complete=True, scales=True))
    n = g["n"]
    s = {"app": app, "g": g}
    if app == "vrp":
        depot = draw(st.integers(0, n - 1))
        s["depot"], s["K"] = depot, draw(st.integers(1, min(4, n - 1)))
        rest = [i for i in range(n) if i != depot]
        pts = []
        for _ in range(draw(st.integers(6, 10))):
            order = draw(st.permutations(rest))
            cuts = sorted(draw(st.sets(st.integers(1, n - 2), max_size=n - 2)))
            c = [0] + cuts + [n - 1]
            # every customer has one edge in and one out; a part is a route of the depot or a closed loop of its own
            pts.append([[list(order[a:b]), draw(st.booleans())] for a, b in zip(c, c[1:])])
        # plans with exactly K routes as well
        order = draw(st.permutations(rest))
        cuts = draw(st.permutations(range(1, n - 1)))[: s["K"] - 1]
        c = [0] + sorted(cuts) + [n - 1]
        pts.append([[list(order[a:b]), True] for a, b in zip(c, c[1:])])
        # and one closed loop of any size beside a single route per remaining vehicle
        loop = draw(st.integers(2, n - 2))
        pts.append([[list(order[:loop]), False], [list(order[loop:]), True]])
        s["pts"] = pts
    else:
        s["pts"] = [draw(st.permutations(range(n))) for _ in range(4)]
        s["swap"] = [draw(st.lists(st.integers(0, n - 1), min_size=n, max_size=n)) for _ in range(4)]
    return s


def covers(s, ctx):
    g, n = s["g"], s["g"]["n"]
    obj, form = A.make(g)
    W = np.zeros((n, n))
    for i, j, w in g["edges"]:
        W[i, j] = W[j, i] = A.weight(w)
    ctx.label(s["app"], "n={}".format(n))
    X, ok, length = [], [], []
    if s["app"] == "tsp":
        # permutations and assignments of one city per step, some repeated
        for p in s["pts"] + s["swap"]:
            x = np.zeros((n, n))
            for k, i in enumerate(p):
                x[i, k] = 1
            X.append(x.ravel())
            ok.append(len(set(p)) == n)
            length.append(sum(W[p[t], p[(t + 1) % n]] for t in range(n)) if ok[-1] else 0.0)
        for x in list(X):
            X.append(x.reshape(n, n).T.ravel())
            p = [[i for i in range(n) if x[k * n + i]] for k in range(n)]
            t = x.reshape(n, n).T
            ok.append(bool((t.sum(axis=0) == 1).all() and (t.sum(axis=1) == 1).all()))
            p = [int(np.argmax(t[:, k])) for k in range(n)]
            length.append(sum(W[p[k], p[(k + 1) % n]] for k in range(n)) if ok[-1] else 0.0)
        app = Tsp(obj)
        A.compare(ctx, app.to_quadratic_program(), n * n, "min", np.array(X), np.array(length), np.array(ok), "TSP")
        ctx.nontrivial(any(ok) and not all(ok))
        return
    K, depot = s["K"], s["depot"]
    pos = {}
    for i in range(n):
        for j in range(n):
            if i != j:
                pos[(i, j)] = len(pos)
    want = []
    for parts in s["pts"]:
        x = np.zeros(len(pos))
        routes, good = 0, True
        for cust, route in parts:
            if not route and len(cust) == 1:
                route = True
            stops = [depot] + cust + [depot] if route else cust + cust[:1]
            routes += bool(route)
            good = good and bool(route)
            for e in zip(stops, stops[1:]):
                x[pos[e]] = 1
        good = good and routes == K
        X.append(x)
        ok.append(good)
        length.append(sum(W[i, j] * x[k] for (i, j), k in pos.items()))
        want.append(parts)
    app = VehicleRouting(obj, K, depot)
    qp = app.to_quadratic_program()
    A.compare(ctx, qp, len(pos), "min", np.array(X), np.array(length), np.array(ok), "vehicle routing")
    ctx.nontrivial(any(ok) and not all(ok))
    ctx.label("K={}".format(K), *["loop of {}".format(len(c)) for parts in s["pts"] for c, r in parts if not r and len(c) > 1])
    for x, good, parts in zip(X, ok, want):
        if good:
            routes = [[[int(v) for v in e] for e in r] for r in app.interpret(x.astype(int))]
            exp = []
            for cust, _ in parts:
                stops = [depot] + cust + [depot]
                exp.append([list(e) for e in zip(stops, stops[1:])])
            ctx.equal(sorted(routes), sorted(exp), "the interpreted routes", x=x.tolist())


SUBCHECKS = [Sub("assignments", case(), check, 900, 10000), Sub("cycle covers", covers_case(), covers, 400, 6000)]
