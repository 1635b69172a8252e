"""C20: the set, number and knapsack applications model their problem at every assignment."""
import copy
import random

import numpy as np
from hypothesis import strategies as st

from qiskit_optimization.applications import ExactCover, Knapsack, NumberPartition, SetPacking

from vlib import apps as A
from vlib import gen as G
from vlib.core import Sub

PROPERTY = "C20"
RULE = (
    "Random families of 1-8 subsets of integers (empty, repeated, unsorted subsets, repeated members, negative "
    "labels), lists of 1-9 numbers (zeros, repeats, negatives), knapsacks of 1-9 items (zero values and weights, "
    "capacity changed later); every 0/1 assignment is compared with the definition and interpreted. large: 9-16 items, more and larger labels, "
    "numbers up to 1e9, thirds and tiny numbers, a planted solution, sampled assignments. Non-trivial: "
    "some assignment is feasible and some is not."
)


@st.composite
def case(draw):
    app = draw(st.sampled_from(["packing", "cover", "partition", "knapsack"]))
    s = {"app": app}
    if app in ("packing", "cover"):
        lab = draw(st.sampled_from([list(range(6)), [0, 1, 2], [-3, 10, 7, 100, 2], list(range(1, 9))]))
        k = draw(st.integers(1, 8))
        s["subsets"] = [draw(st.lists(st.sampled_from(lab), max_size=4)) for _ in range(k)]
        if draw(st.integers(0, 2)) and app == "cover":  # plant a partition, so that covers exist
            perm = draw(st.permutations(lab))
            c = sorted(draw(st.lists(st.integers(0, len(lab)), max_size=2)))
            parts = [list(perm[a:b]) for a, b in zip([0] + c, c + [len(lab)])]
            s["subsets"] = (s["subsets"] + parts)[:9]
        s["form"] = draw(st.sampled_from(["list", "list", "tuple"]))
        n = len(s["subsets"])
    elif app == "partition":
        v = draw(st.sampled_from([st.integers(1, 9), st.integers(-5, 9), st.integers(0, 3), st.integers(1, 1000), st.integers(-12, 24).map(lambda k: k / 4)]))
        s["nums"] = draw(st.lists(v, min_size=1, max_size=8))
        if draw(st.integers(0, 2)):
            half = s["nums"][: max(1, len(s["nums"]) // 2)]
            s["nums"] = half + draw(st.permutations(half))
        n = len(s["nums"])
    else:
        n = draw(st.integers(1, 8))
        v = draw(st.sampled_from([st.integers(0, 20), st.integers(1, 5), st.integers(0, 80).map(lambda k: k / 4), st.integers(200, 5000)]))
        s["values"] = draw(st.lists(v, min_size=n, max_size=n))
        s["weights"] = draw(st.lists(v, min_size=n, max_size=n))
        tot = sum(s["weights"])
        sub = sum(w for w in s["weights"] if draw(st.booleans()))
        s["caps"] = [sub] + draw(st.lists(st.integers(-1, int(tot) + 2), max_size=2))
    s["probe"] = draw(st.lists(st.integers(0, 2 ** n - 1), min_size=2, max_size=4))
    return s


def check(s, ctx):
    n = len(s.get("subsets") or s.get("nums") or s.get("values"))
    compare(s, A.all_bits(n), ctx)


def compare(s, X, ctx):
    ctx.label(s["app"])
    if s["app"] in ("packing", "cover"):
        subs = [tuple(v) if s["form"] == "tuple" else list(v) for v in s["subsets"]]
        n = len(subs)
        if not any(subs):
            ctx.label("no element")
        given = copy.deepcopy(subs)
        app = (SetPacking if s["app"] == "packing" else ExactCover)(subs)
        cover = {}
        for k, sub in enumerate(s["subsets"]):
            for e in set(sub):
                cover[e] = cover.get(e, 0) + X[:, k]
        ok = np.ones(len(X), dtype=bool)
        for c in cover.values():
            ok &= (c <= 1) if s["app"] == "packing" else (c == 1)
        for _ in range(2):
            qp = app.to_quadratic_program()
            A.compare(ctx, qp, n, "max" if s["app"] == "packing" else "min", X, X.sum(axis=1), ok, s["app"])
        for k in s["probe"]:
            want = [list(s["subsets"][i]) for i in range(n) if X[k, i]]
            for r in A.forms(qp, X[k]):
                ctx.equal([list(v) for v in app.interpret(r)], want, "interpretation", x=X[k].tolist())
        ctx.equal(subs, given, "the given subsets are not changed")
        ctx.nontrivial(ok.any() and not ok.all())
        ctx.label("feasible" if ok.any() else "no solution")
    elif s["app"] == "partition":
        nums = list(s["nums"])
        n = len(nums)
        app = NumberPartition(nums)
        ok = np.abs(X @ np.array(nums, dtype=float) * 2 - sum(nums)) < 1e-9
        for _ in range(2):
            qp = app.to_quadratic_program()
            A.compare(ctx, qp, n, None, X, None, ok, "number partition")
        for k in s["probe"]:
            want = [[v for v, b in zip(nums, X[k]) if not b], [v for v, b in zip(nums, X[k]) if b]]
            for r in A.forms(qp, X[k]):
                ctx.equal([list(v) for v in app.interpret(r)], want, "interpretation", x=X[k].tolist())
        ctx.equal(nums, s["nums"], "the given numbers are not changed")
        ctx.nontrivial(ok.any() and not ok.all())
        ctx.label("feasible" if ok.any() else "no solution")
    else:
        n = len(s["values"])
        v, w = np.array(s["values"], dtype=float), np.array(s["weights"], dtype=float)
        app = Knapsack(list(s["values"]), list(s["weights"]), s["caps"][0])
        for k, cap in enumerate(s["caps"]):
            if k:
                app.max_weight = cap
            ctx.equal(app.max_weight, cap, "the capacity is kept")
            ok = X @ w <= cap + 1e-9
            qp = app.to_quadratic_program()
            A.compare(ctx, qp, n, "max", X, X @ v, ok, "knapsack")
            ctx.nontrivial(ok.any() and not ok.all())
        for k in s["probe"]:
            for r in A.forms(qp, X[k]):
                ctx.equal(list(app.interpret(r)), [i for i in range(n) if X[k, i]], "interpretation", x=X[k].tolist())
    ctx.raises(TypeError, lambda: app.interpret([0.0] * n), "a plain list is not a result")


@st.composite
def large_case(draw):
    return {"app": draw(st.sampled_from(["packing", "cover", "partition", "knapsack"])), "n": draw(st.integers(9, 16)),
            "kind": draw(st.sampled_from(["int", "dyadic", "rough", "tiny", "huge"])), "labels": draw(st.integers(0, 3)),
            "form": draw(st.sampled_from(["list", "tuple"])), "seed": draw(st.integers(0, 2 ** 31))}


def check_large(s, ctx):
    """more items, more elements, numbers of different size; sampled assignments and planted solutions"""
    rnd = random.Random(s["seed"])
    n = s["n"]
    X = A.rows(n, s["seed"] + 1)
    t = {"app": s["app"], "form": s["form"]}
    if s["app"] in ("packing", "cover"):
        lab = [list(range(20)), rnd.sample(range(-50, 1000), 20), list(range(10 ** 6, 10 ** 6 + 20)), list(range(30))][s["labels"]]
        k = rnd.randint(2, n - 2)
        perm = rnd.sample(lab, len(lab))
        parts = [perm[i::k] for i in range(k)]  # a planted exact cover
        subs = [rnd.choices(lab, k=rnd.randint(0, 8)) if rnd.random() < 0.3 else rnd.sample(lab, rnd.randint(0, 8)) for _ in range(n - k)]
        where = rnd.sample(range(n), k)
        t["subsets"] = []
        for i in range(n):
            t["subsets"].append(parts[where.index(i)] if i in where else subs.pop())
        planted = [int(i in where) for i in range(n)]
    elif s["app"] == "partition":
        if s["kind"] == "huge":
            nums = [rnd.randint(1, 10 ** 9) for _ in range(n)]
        else:
            nums = [rnd.randint(-9 if s["labels"] == 0 else 0, 99) for _ in range(n)]
        planted = [rnd.randint(0, 1) for _ in range(n)]
        # make the planted assignment a partition
        if s["labels"] == 1:
            nums = [v / 8 for v in nums]
        nums[0] += sum(v if b != planted[0] else -v for v, b in zip(nums, planted))
        t["nums"] = nums
    else:
        t["values"] = [abs(G.number(rnd, s["kind"], False)) for _ in range(n)]
        t["weights"] = [abs(G.number(rnd, s["kind"], False)) for _ in range(n)]
        planted = [rnd.randint(0, 1) for _ in range(n)]
        w = np.array(t["weights"], dtype=float)
        loads = sorted(set(float(v) for v in X @ w))
        k = rnd.randrange(len(loads))  # a capacity between two loads, or in integer cases exactly a load
        cap = loads[k] if s["kind"] in ("int", "dyadic") else (loads[k] + (loads[k + 1] if k + 1 < len(loads) else loads[k] + 1)) / 2
        near = np.abs(X @ w - cap) < 1e-7 * max(1.0, cap)
        if s["kind"] not in ("int", "dyadic"):
            X = X[~near]
            planted = X[0].astype(int).tolist()
        t["caps"] = [cap]
    flip = [[1 - v if i == k else v for i, v in enumerate(planted)] for k in range(n)]
    X = np.vstack([X, [planted], flip]) if s["app"] != "knapsack" or s["kind"] in ("int", "dyadic") else X
    t["probe"] = [rnd.randrange(len(X)) for _ in range(4)]
    ctx.label(s["kind"])
    compare(t, X, ctx)


SUBCHECKS = [
    Sub("assignments", case(), check, 3000, 40000),
    Sub("large", large_case(), check_large, 600, 8000),
]
