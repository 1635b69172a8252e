"""C06: QUBO <-> Ising translations preserve the energy of every bitstring."""
from itertools import product

import numpy as np
from hypothesis import strategies as st
from qiskit.opflow import Z, ListOp, MatrixOp, PauliOp, PauliSumOp, SummedOp
from qiskit.quantum_info import Pauli

from qiskit_optimization import QuadraticProgram, QiskitOptimizationError

from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C06"
RULE = (
    "(a) unconstrained binary programs of 1-6 variables (both senses, constants, squares, zero and empty objectives): "
    "the operator's diagonal plus offset is compared with the objective for all bitstrings, then translated back; "
    "(b) diagonal operators of 1-5 qubits given as PauliOp, PauliSumOp, SummedOp (nested, repeated, scaled, identity "
    "terms): the imported objective is compared for all bitstrings, both with and without the linear option; "
    "(c) programs and operators that must be rejected. Non-trivial: a non-constant objective or operator; every "
    "rejection. The importing program may contain variables, constraints and an objective before: an accepted operator "
    "replaces them, a rejected one leaves them as they were."
)


def op_terms(op):
    """the (label, coefficient) pairs of an operator"""
    if isinstance(op, PauliSumOp):
        terms = [(lab, c * op.coeff) for lab, c in op.primitive.to_list()]
    else:
        terms = []

        def walk(o, f):
            if isinstance(o, SummedOp):
                for k in o.oplist:
                    walk(k, f * o.coeff)
            elif isinstance(o, PauliSumOp):
                terms.extend((lab, c * o.coeff * f) for lab, c in o.primitive.to_list())
            else:
                terms.append((o.primitive.to_label(), o.coeff * f))

        walk(op, 1.0)
    return terms


def diag(op, n):
    """diagonal of a Pauli-Z operator, computed from its Pauli terms (index = integer of the bitstring)"""
    m = np.zeros(2 ** n, dtype=complex)
    for lab, c in op_terms(op):
        assert set(lab) <= set("IZ"), lab
        for k in range(2 ** n):
            s = 1
            for q in range(n):
                if lab[n - 1 - q] == "Z" and (k >> q) & 1:
                    s = -s
            m[k] += c * s
    return m


def near(ctx, got, want, mag, msg, **kw):
    """energies agree up to rounding relative to the largest magnitude that occurs (mag), whatever the unit; the operator
    classes of qiskit-terra drop Pauli terms below 1e-8, so an absolute part of the order of some such terms is allowed"""
    g, w = complex(got), complex(want)
    if abs(g - w) > 1e-12 * mag + 3e-7:
        ctx.fail(msg, got=got, want=want, magnitude=mag, **kw)


# exponents of two: objectives are also stated in very small or very large units, or mix units
SCALES = st.one_of(st.just(0), st.sampled_from([-17, -14, -10, -7, 7, 14, 20]))


@st.composite
def qubo_case(draw):
    n = draw(st.integers(1, 6))
    s = _qubo_case(draw, n)
    for i, e in enumerate(draw(st.one_of(st.just([0] * 40), SCALES.map(lambda e: [e] * 40),
                                         st.lists(SCALES, min_size=17, max_size=17)))):
        f = 2.0 ** e
        if e == 0:
            continue
        if i == 0:
            s["const"] *= f
        elif i <= len(s["lin"]):
            s["lin"][i - 1][-1] *= f
        elif i - 1 - len(s["lin"]) < len(s["quad"]):
            s["quad"][i - 1 - len(s["lin"])][-1] *= f
    return s


def _qubo_case(draw, n):
    return {
        "names": draw(G.names(n)),
        "sense": draw(st.sampled_from(["min", "max"])),
        "const": draw(G.dyadic),
        "lin": draw(G.linear(n, G.wide)),
        "quad": draw(G.quadratic(n, G.wide, max_size=10)),
        "lf": draw(G.lfmts),
        "qf": draw(G.qfmts),
    }


def check_to(s, ctx):
    n = len(s["names"])
    p = {"name": "", "vars": [{"n": nm, "t": "B", "l": 0, "u": 1} for nm in s["names"]], "sense": s["sense"],
         "const": s["const"], "lin": s["lin"], "quad": s["quad"], "lcs": [], "qcs": []}
    qp = M.build(p, s["lf"], s["qf"])
    snap = M.snapshot(qp)
    op, offset = qp.to_ising()
    ctx.equal(M.snapshot(qp), snap, "to_ising must not change the program")
    ctx.equal(op.num_qubits, n, "number of qubits")
    d = diag(op, n)
    vals = set()
    mag = abs(s["const"]) + sum(abs(t[-1]) for t in s["lin"]) + sum(abs(t[-1]) for t in s["quad"])
    for k in range(2 ** n):
        x = [(k >> q) & 1 for q in range(n)]
        f = M.objective(p, x)
        vals.add(f)
        near(ctx, d[k] + offset, M.sgn(p) * f, mag, "energy + offset = sense * objective", x=x)
    for linear in (False, True):
        back = QuadraticProgram()
        back.from_ising(op, offset, linear=linear)
        ctx.equal([v.vartype.name for v in back.variables], ["BINARY"] * n, "types after from_ising")
        ctx.equal(back.objective.sense.name, "MINIMIZE", "sense after from_ising")
        for k in range(2 ** n):
            x = [(k >> q) & 1 for q in range(n)]
            near(ctx, back.objective.evaluate(x), M.sgn(p) * M.objective(p, x), mag, "from_ising(to_ising(p))", x=x, linear=linear)
        if linear:
            ctx.check(all(i != j for (i, j), v in back.objective.quadratic.to_dict().items() if v != 0), "no squares with linear=True")
        else:
            ctx.check(not any(back.objective.linear.to_dict().values()), "no linear terms with linear=False")
    ctx.nontrivial(len(vals) > 1)
    ctx.label(s["sense"], "n={}".format(n), "constant" if len(vals) == 1 else "varying")


@st.composite
def op_case(draw):
    n = draw(st.integers(1, 5))
    terms = draw(
        st.lists(
            st.tuples(st.lists(st.integers(0, n - 1), max_size=2, unique=True), G.dyadic).map(list), min_size=1, max_size=7
        )
    )
    exps = draw(st.one_of(st.just([0] * 8), SCALES.map(lambda e: [e] * 8), st.lists(SCALES, min_size=8, max_size=8)))
    for t, e in zip(terms, exps):
        t[1] *= 2.0 ** e
    return {"n": n, "terms": terms, "off": draw(G.dyadic) * 2.0 ** exps[7], "form": draw(st.sampled_from(["sum", "summed", "nested", "single", "paulisum_coeff", "deep", "signed", "matrix"])),
            "coef": draw(st.sampled_from([1, 2, -1, 0.5])), "linear": draw(st.booleans()), "stale": draw(STALE)}


def label(n, zs):
    return "".join("Z" if q in zs else "I" for q in reversed(range(n)))


def energy(terms, n, x):
    e = 0.0
    for lab, c in terms:
        sign = 1
        for q in range(n):
            if lab[n - 1 - q] == "Z" and x[q]:
                sign = -sign
        e += sign * c
    return e


def make_op(s, ctx):
    n = s["n"]
    terms = [(label(n, z), float(c)) for z, c in s["terms"]]
    f = float(s["coef"])
    if s["form"] == "single":
        terms = terms[:1]
        return PauliOp(Pauli(terms[0][0]), terms[0][1] * f), [(t, c * f) for t, c in terms]
    if s["form"] == "deep":
        # sums of sums, each with a factor of its own
        ops, out = [], []
        for k in range(0, len(terms), 2):
            g = [1.0, 2.0, -0.5][k // 2 % 3]
            ops.append(SummedOp([PauliOp(Pauli(t), c) for t, c in terms[k:k + 2]], coeff=g))
            out += [(t, c * g * f) for t, c in terms[k:k + 2]]
        return SummedOp(ops, coeff=f), out
    if s["form"] == "signed":
        # the sign (or a phase undone by the coefficient) is part of the Pauli term
        ops, out = [], []
        for k, (t, c) in enumerate(terms):
            ph, g = [("-", 1.0), ("", 1.0), ("i", -1j), ("-i", 1j)][k % 4]
            ops.append(PauliOp(Pauli(ph + t), c * g))
            out.append((t, -c * f if ph == "-" else c * f))
        op = SummedOp(ops, coeff=f) if len(ops) > 1 else ops[0] * f
        if np.abs(np.diag(op.to_matrix()) - np.diag(op.to_pauli_op().to_matrix())).max() > 1e-12 * sum(abs(c) for _, c in terms):
            ctx.discard()  # terra itself loses a sign when it collects equal Paulis
        return op, out
    if s["form"] == "matrix" and n <= 3:
        tot = [(t, c * f) for t, c in terms]
        return MatrixOp(np.diag([energy(tot, n, [(k >> q) & 1 for q in range(n)]) for k in range(2 ** n)])), tot
    if s["form"] in ("sum", "matrix"):
        return PauliSumOp.from_list(terms) * f, [(t, c * f) for t, c in terms]
    if s["form"] == "paulisum_coeff":
        return PauliSumOp.from_list(terms, coeff=f), [(t, c * f) for t, c in terms]
    if s["form"] == "summed":
        return SummedOp([PauliOp(Pauli(t), c) for t, c in terms], coeff=f), [(t, c * f) for t, c in terms]
    h = max(1, len(terms) // 2)
    ops = [PauliSumOp.from_list(terms[:h])] + [PauliOp(Pauli(t), c) for t, c in terms[h:]]
    return SummedOp(ops, coeff=f), [(t, c * f) for t, c in terms]


# what the program that receives an imported operator contains before; None: nothing
STALE = st.one_of(st.none(), st.tuples(st.lists(st.sampled_from(["x_0", "x_1", "x_9", "a", "b"]), max_size=3, unique=True),
                                       st.sampled_from("BIC"), st.booleans(), st.booleans()).map(list))


def stale(d):
    """a program with the given leftovers"""
    qp = QuadraticProgram("left over" if d else "")
    if not d:
        return qp
    names, t, maximize, constrained = d
    for nm in names:
        if t == "B":
            qp.binary_var(nm)
        elif t == "I":
            qp.integer_var(-1, 4, nm)
        else:
            qp.continuous_var(-1, 4, nm)
    if maximize:
        qp.maximize(3.0, {nm: 2.0 for nm in names}, {(nm, nm): -1.0 for nm in names})
    if constrained and names:
        qp.linear_constraint({names[0]: 1.0}, "<=", 1, "left_l")
        qp.quadratic_constraint({}, {(names[0], names[-1]): 1.0}, ">=", -1, "left_q")
    return qp


def check_from(s, ctx):
    n = s["n"]
    op, terms = make_op(s, ctx)
    qp = stale(s.get("stale"))
    qp.from_ising(op, s["off"], linear=s["linear"])
    ctx.equal([v.name for v in qp.variables], ["x_{}".format(i) for i in range(n)], "names of the variables")
    ctx.equal(qp.get_num_binary_vars(), n, "number of binary variables")
    ctx.equal(qp.get_num_vars(), n, "number of variables")
    ctx.equal(qp.objective.sense.name, "MINIMIZE", "sense")
    ctx.equal(qp.get_num_linear_constraints() + qp.get_num_quadratic_constraints(), 0, "no constraints")
    vals = set()
    mag = abs(s["off"]) + sum(abs(c) for _, c in terms)
    for k in range(2 ** n):
        x = [(k >> q) & 1 for q in range(n)]
        e = s["off"] + energy(terms, n, x)
        vals.add(e)
        near(ctx, qp.objective.evaluate(x), e, mag, "objective of from_ising", x=x)
    op2, off2 = qp.to_ising()
    d = diag(op2, n)
    for k in range(2 ** n):
        x = [(k >> q) & 1 for q in range(n)]
        near(ctx, d[k] + off2, float(qp.objective.evaluate(x)), mag, "to_ising(from_ising(op))", x=x)
    ctx.nontrivial(len(vals) > 1)
    ctx.label(s["form"], "linear={}".format(s["linear"]))


@st.composite
def bad_case(draw):
    k = draw(st.sampled_from(["int", "cont", "lc", "qc", "X", "Y", "ZX", "ZZZ", "ZZZZ", "list", "hidden"]))
    return {"k": k, "n": draw(st.integers(3, 5)), "stale": draw(STALE), "pos": draw(st.integers(0, 4)), "c": draw(G.nz_dyadic),
            "terms": draw(st.lists(st.tuples(st.lists(st.integers(0, 2), min_size=1, max_size=2, unique=True), G.nz_dyadic).map(list), max_size=3))}


def check_bad(s, ctx):
    k, n = s["k"], s["n"]
    pos = s["pos"] % n
    if k in ("int", "cont", "lc", "qc"):
        qp = QuadraticProgram()
        for i in range(n):
            if i == pos and k == "int":
                qp.integer_var(0, 1, "v{}".format(i))
            elif i == pos and k == "cont":
                qp.continuous_var(0, 1, "v{}".format(i))
            else:
                qp.binary_var("v{}".format(i))
        qp.minimize(0, {0: 1})
        if k == "lc":
            qp.linear_constraint({pos: s["c"]}, "<=", 1)
        if k == "qc":
            qp.quadratic_constraint({}, {(pos, 0): s["c"]}, "<=", 1)
        ctx.raises(QiskitOptimizationError, qp.to_ising, "to_ising must reject", kind=k)
    else:
        terms = [(label(n, z), float(c)) for z, c in s["terms"]]
        base = ["I"] * n
        if k == "list":
            op = ListOp([Z ^ n, Z ^ n])
            qp = stale(s.get("stale"))
            snap = M.snapshot(qp)
            ctx.raises(NotImplementedError, lambda: qp.from_ising(op), "from_ising must reject a ListOp")
            ctx.equal(M.snapshot(qp), snap, "a rejected operator leaves the program as it was")
            ctx.nontrivial()
            ctx.label(k)
            return
        pat = {"X": "X", "Y": "Y", "ZX": "ZX", "ZZZ": "ZZZ", "ZZZZ": "ZZZ", "hidden": "ZZX"}[k]
        for t, ch in enumerate(pat):
            base[(pos + t) % n] = ch
        at = s["pos"] % (len(terms) + 1)
        terms.insert(at, ("".join(base), float(s["c"])))
        op = PauliSumOp.from_list(terms)
        qp = stale(s.get("stale"))
        snap = M.snapshot(qp)
        ctx.raises(QiskitOptimizationError, lambda: qp.from_ising(op), "from_ising must reject", kind=k, terms=terms)
        ctx.equal(M.snapshot(qp), snap, "a rejected operator leaves the program as it was")
    ctx.nontrivial()
    ctx.label(k)


@st.composite
def large_case(draw):
    return {"b": draw(G.large(types="B", max_n=11, max_lcs=0, kinds=["int", "dyadic", "rough", "tiny", "huge"])), "form": draw(st.sampled_from(["sum", "summed"])),
            "linear": draw(st.booleans()), "off": draw(G.dyadic)}


def check_large(s, ctx):
    """seven to eleven qubits, both directions"""
    p = G.expand(s["b"])
    n = len(p["vars"])
    qp = M.build(p)
    op, offset = qp.to_ising()
    mag = abs(p["const"]) + sum(abs(t[-1]) for t in p["lin"] + p["quad"])
    # the operator's terms, term by term: Z_i Z_j etc. with the bits of every basis state as signs
    K = np.arange(2 ** n)
    bits = np.array([(K >> q) & 1 for q in range(n)])
    sign = 1 - 2 * bits

    def diagonal(terms):
        d = np.zeros(2 ** n)
        for lab, c in terms:
            t = np.full(2 ** n, complex(c).real)
            for q in range(n):
                if lab[n - 1 - q] == "Z":
                    t = t * sign[q]
            d += t
        return d

    terms = op_terms(op)
    f = np.full(2 ** n, float(p["const"]))
    for i, v in p["lin"]:
        f += v * bits[i]
    for i, j, v in p["quad"]:
        f += v * bits[i] * bits[j]
    d = diagonal(terms) + offset
    k = int(np.abs(d - M.sgn(p) * f).argmax())
    near(ctx, d[k], M.sgn(p) * f[k], mag, "energy + offset = sense * objective", x=bits[:, k].tolist())
    # the terms as an operator of another form
    if s["form"] == "summed" and len(terms) > 1:
        op = SummedOp([PauliOp(Pauli(lab), complex(c).real) for lab, c in reversed(terms)])
    back = QuadraticProgram()
    back.from_ising(op, offset + s["off"], linear=s["linear"])
    b = M.read(back)
    ctx.equal(len(b["vars"]), n, "number of variables")
    g = np.full(2 ** n, b["const"])
    for i, v in b["lin"]:
        g += v * bits[i]
    for i, j, v in b["quad"]:
        g += v * bits[i] * bits[j]
    k = int(np.abs(g - d - s["off"]).argmax())
    near(ctx, g[k], d[k] + s["off"], mag, "objective of from_ising", x=bits[:, k].tolist())
    ctx.nontrivial(n >= 7 and bool(p["quad"]))
    ctx.label("n={}".format(n), s["b"]["kind"])


SUBCHECKS = [
    Sub("large", large_case(), check_large, 200, 3000),
    Sub("to_ising", qubo_case(), check_to, 1200, 16000,
        explicit=[{"names": ["x", "y"], "sense": "max", "const": 3, "lin": [], "quad": [], "lf": "index", "qf": "index"}]),
    Sub("from_ising", op_case(), check_from, 1200, 16000,
        explicit=[{"n": 2, "terms": [[[0], 1], [[0], 2], [[], 3]], "off": 1, "form": "sum", "coef": 1, "linear": True},
                  {"n": 2, "terms": [[[0], 1], [[0], 2]], "off": 1, "form": "summed", "coef": 2, "linear": True}]),
    Sub("reject", bad_case(), check_bad, 400, 4000),
]
