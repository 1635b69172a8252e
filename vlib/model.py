"""Reference model of a quadratic program, written from the mathematical definition only.

A problem *spec* is plain JSON::

    {"name": str,
     "vars": [{"n": name, "t": "B"|"I"|"C", "l": lb, "u": ub}],
     "sense": "min"|"max", "const": c, "lin": [[i, v], ...], "quad": [[i, j, v], ...],
     "lcs": [{"n": name, "lin": [[i, v]], "s": "<="|">="|"==", "r": rhs}],
     "qcs": [{"n": name, "lin": [[i, v]], "quad": [[i, j, v]], "s": .., "r": ..}]}

Pairs may repeat: repeated entries add up.
"""
from itertools import product
from fractions import Fraction
from math import inf

import numpy as np
from scipy.sparse import coo_matrix, csr_matrix, dok_matrix

from qiskit_optimization import INFINITY, QuadraticProgram
from qiskit_optimization.problems import Variable, Constraint, QuadraticObjective

SENSES = {"<=": Constraint.Sense.LE, ">=": Constraint.Sense.GE, "==": Constraint.Sense.EQ}
VT = {"B": Variable.Type.BINARY, "I": Variable.Type.INTEGER, "C": Variable.Type.CONTINUOUS}
VT_INV = {v: k for k, v in VT.items()}
SENSE_INV = {v: k for k, v in SENSES.items()}


def merge_lin(pairs):
    out = {}
    for i, v in pairs:
        out[i] = out.get(i, 0) + v
    return out


def merge_quad(triples):
    """coefficients of x_i x_j with i <= j"""
    out = {}
    for i, j, v in triples:
        k = (min(i, j), max(i, j))
        out[k] = out.get(k, 0) + v
    return out


def ev_lin(pairs, x):
    return sum(v * x[i] for i, v in pairs)


def ev_quad(triples, x):
    return sum(v * x[i] * x[j] for i, j, v in triples)


def objective(spec, x):
    return spec["const"] + ev_lin(spec["lin"], x) + ev_quad(spec["quad"], x)


def sgn(spec):
    return 1 if spec["sense"] == "min" else -1


def holds(lhs, sense, rhs, tol=0):
    if sense == "<=":
        return lhs <= rhs + tol
    if sense == ">=":
        return lhs >= rhs - tol
    return abs(lhs - rhs) <= tol


def bounds_ok(spec, x, tol=0):
    return all(v["l"] - tol <= a <= v["u"] + tol for v, a in zip(spec["vars"], x))


def constraints_ok(spec, x, tol=0):
    for c in spec["lcs"]:
        if not holds(ev_lin(c["lin"], x), c["s"], c["r"], tol):
            return False
    for c in spec["qcs"]:
        if not holds(ev_lin(c["lin"], x) + ev_quad(c["quad"], x), c["s"], c["r"], tol):
            return False
    return True


def feasible(spec, x, tol=0):
    return bounds_ok(spec, x, tol) and constraints_ok(spec, x, tol)


def domain(v):
    """integer points of a binary or integer variable"""
    from math import ceil, floor

    return range(ceil(v["l"]), floor(v["u"]) + 1)


def points(spec):
    return product(*[domain(v) for v in spec["vars"]])


def num_points(spec):
    n = 1
    for v in spec["vars"]:
        n *= max(0, len(domain(v)))
    return n


def brute(spec):
    """(best value, set of optimal points) over the feasible integer points; (None, set()) if none."""
    best, arg = None, set()
    s = sgn(spec)
    for x in points(spec):
        if not constraints_ok(spec, x):
            continue
        f = objective(spec, x)
        if best is None or s * f < s * best:
            best, arg = f, {x}
        elif f == best:
            arg.add(x)
    return best, arg


def lin_as(fmt, pairs, n, names):
    """the linear coefficients in one of the accepted formats"""
    d = merge_lin(pairs)
    if fmt == "name":
        return {names[i]: v for i, v in d.items()}
    if fmt == "index":
        return dict(d)
    if fmt == "mixed":
        return {(names[i] if k % 2 else i): v for k, (i, v) in enumerate(d.items())}
    arr = [0.0] * n
    for i, v in d.items():
        arr[i] = float(v)
    if fmt == "list":
        return arr
    if fmt == "array":
        return np.array(arr)
    if fmt == "csr":
        return csr_matrix([arr])
    if fmt == "dok":
        return dok_matrix([arr])
    if fmt == "coo":
        return coo_matrix(([float(v) for _, v in pairs], ([0] * len(pairs), [i for i, _ in pairs])), shape=(1, n))
    raise ValueError(fmt)


def quad_as(fmt, triples, n, names):
    d = {}
    for i, j, v in triples:
        d[(i, j)] = d.get((i, j), 0) + v
    if fmt == "name":
        return {(names[i], names[j]): v for (i, j), v in d.items()}
    if fmt == "index":
        return dict(d)
    if fmt == "mixed":
        return {((names[i], j) if k % 2 else (i, names[j])): v for k, ((i, j), v) in enumerate(d.items())}
    arr = np.zeros((n, n))
    for (i, j), v in d.items():
        arr[i, j] = v
    if fmt == "list":
        return arr.tolist()
    if fmt == "array":
        return arr
    if fmt == "csr":
        return csr_matrix(arr)
    if fmt == "dok":
        return dok_matrix(arr)
    if fmt == "coo":
        return coo_matrix(
            ([float(v) for _, _, v in triples], ([i for i, _, _ in triples], [j for _, j, _ in triples])),
            shape=(n, n),
        )
    raise ValueError(fmt)


LIN_FMTS = ["name", "index", "mixed", "list", "array", "csr", "dok", "coo"]
QUAD_FMTS = LIN_FMTS


def add_var(qp, v):
    if v["t"] == "B":
        var = qp.binary_var(v["n"])
        if (v["l"], v["u"]) != (0, 1):
            var.lowerbound = v["l"]
            var.upperbound = v["u"]
        return var
    if v["t"] == "I":
        return qp.integer_var(v["l"], v["u"], v["n"])
    return qp.continuous_var(v["l"], v["u"], v["n"])


def build(spec, lfmt="index", qfmt="index"):
    qp = QuadraticProgram(spec.get("name", ""))
    for v in spec["vars"]:
        add_var(qp, v)
    n = len(spec["vars"])
    names = [v["n"] for v in spec["vars"]]
    (qp.minimize if spec["sense"] == "min" else qp.maximize)(
        constant=spec["const"],
        linear=lin_as(lfmt, spec["lin"], n, names),
        quadratic=quad_as(qfmt, spec["quad"], n, names),
    )
    for c in spec["lcs"]:
        qp.linear_constraint(lin_as(lfmt, c["lin"], n, names), c["s"], c["r"], c["n"])
    for c in spec["qcs"]:
        qp.quadratic_constraint(
            lin_as(lfmt, c["lin"], n, names), quad_as(qfmt, c["quad"], n, names), c["s"], c["r"], c["n"]
        )
    return qp


def _clean(d):
    return {k: float(v) for k, v in d.items() if v != 0}


def read(qp):
    """The content of a QuadraticProgram as a spec, read through the public interface."""
    def lin(e):
        return [[int(i), float(v)] for i, v in sorted(e.to_dict().items()) if v != 0]

    def quad(e):
        return [[int(i), int(j), float(v)] for (i, j), v in sorted(e.to_dict().items()) if v != 0]

    return {
        "name": qp.name,
        "vars": [
            {"n": v.name, "t": VT_INV[v.vartype], "l": float(v.lowerbound), "u": float(v.upperbound)}
            for v in qp.variables
        ],
        "sense": "min" if qp.objective.sense == QuadraticObjective.Sense.MINIMIZE else "max",
        "const": float(qp.objective.constant),
        "lin": lin(qp.objective.linear),
        "quad": quad(qp.objective.quadratic),
        "lcs": [
            {"n": c.name, "lin": lin(c.linear), "s": SENSE_INV[c.sense], "r": float(c.rhs)}
            for c in qp.linear_constraints
        ],
        "qcs": [
            {"n": c.name, "lin": lin(c.linear), "quad": quad(c.quadratic), "s": SENSE_INV[c.sense], "r": float(c.rhs)}
            for c in qp.quadratic_constraints
        ],
    }


def normal(spec):
    """the spec in the normal form of :func:`read`"""
    def lin(p):
        return [[i, float(v)] for i, v in sorted(merge_lin(p).items()) if v != 0]

    def quad(t):
        return [[i, j, float(v)] for (i, j), v in sorted(merge_quad(t).items()) if v != 0]

    return {
        "name": spec.get("name", ""),
        "vars": [{"n": v["n"], "t": v["t"], "l": float(v["l"]), "u": float(v["u"])} for v in spec["vars"]],
        "sense": spec["sense"],
        "const": float(spec["const"]),
        "lin": lin(spec["lin"]),
        "quad": quad(spec["quad"]),
        "lcs": [{"n": c["n"], "lin": lin(c["lin"]), "s": c["s"], "r": float(c["r"])} for c in spec["lcs"]],
        "qcs": [
            {"n": c["n"], "lin": lin(c["lin"]), "quad": quad(c["quad"]), "s": c["s"], "r": float(c["r"])}
            for c in spec["qcs"]
        ],
    }


def snapshot(qp):
    """everything observable about a program, for 'is unchanged' checks"""
    s = read(qp)
    s["status"] = qp.status.name
    s["vidx"] = dict(qp.variables_index)
    s["lidx"] = dict(qp.linear_constraints_index)
    s["qidx"] = dict(qp.quadratic_constraints_index)
    s["counts"] = [qp.get_num_vars(), qp.get_num_binary_vars(), qp.get_num_integer_vars(),
                   qp.get_num_continuous_vars(), qp.get_num_linear_constraints(),
                   qp.get_num_quadratic_constraints()]
    return s
