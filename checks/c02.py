"""C02: a program's name tables, counts and content follow the history of edits exactly."""
import copy

from hypothesis import strategies as st

from qiskit_optimization import QuadraticProgram, QiskitOptimizationError
from qiskit_optimization.problems import Variable, Constraint

from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C02"
RULE = (
    "A case is a history of 4 to 25 editing operations on one program (single, list and dict variable creation in "
    "all three types with explicit, automatic and formatted names; constraint creation with every spelling of the "
    "sense; removal by name, index and negative index; objective, coefficient (whole expressions and single entries), bound, type and name changes; deep copies; clear, also after an infeasible substitution; and rejected "
    "operations: duplicate names, empty ranges, unknown names, bad senses, bad formats). After every operation the "
    "program is compared with a list model, and so are the values and gradients of its expressions at a point. long: 20 to 70 operations from a seed, programs with tens of variables and "
    "constraints. Non-trivial: the history has at least four operations and leaves at "
    "least one variable or constraint."
)

NAMES = ["x", "y", "x0", "x1", "x2", "z_3", "c0", "x3", "a b", "x1_"]
CN = [None, None, "", "c0", "c1", "c2", "q0", "q1", "k", "x"]
SENSES = ["<=", ">=", "==", "=", "<", ">", "E", "L", "G", "EQ", "LE", "GE", "eq", "le", "ge", "e", "l", "g", "enum<=", "enum>=", "enum=="]
BAD_SENSES = ["=>", "=<", "!=", "", "leq", "X"]
FMT = ["{}", "{}", "_{}", "", "[{}]", "{}_s", "-{:2}"]
BAD_FMT = ["{{}}", "{}{}", "_{}_{}"]

bounds = st.tuples(st.integers(-5, 5), st.integers(-2, 6)).map(lambda t: [t[0], t[0] + t[1]])
pairs = st.lists(st.tuples(st.integers(0, 6), G.dyadic).map(list), max_size=3)
triples = st.lists(st.tuples(st.integers(0, 6), st.integers(0, 6), G.dyadic).map(list), max_size=3)

# which arguments the call leaves to their documented defaults (lower bound 0, no upper bound, "<=", 0, nothing)
omit = st.sampled_from([0] * 6 + [1, 2, 3, 4, 5, 6, 7, 8, 12, 15])
GOOD_SENSES = ["<=", ">=", "==", "E", "l", "ge"]
setup_op = st.one_of(
    st.fixed_dictionaries({"op": st.just("var"), "t": st.sampled_from("BIC"), "om": omit, "b": bounds, "n": st.just(None)}),
    st.fixed_dictionaries(
        {"op": st.just("lc"), "om": omit, "lin": pairs, "s": st.sampled_from(GOOD_SENSES), "r": G.dyadic,
         "n": st.sampled_from([None, "c1", "k", "x"]), "bad": st.just(False)}
    ),
    st.fixed_dictionaries(
        {"op": st.just("qc"), "om": omit, "lin": pairs, "quad": triples, "s": st.sampled_from(GOOD_SENSES), "r": G.dyadic,
         "n": st.sampled_from([None, "q1", "k", "x"]), "bad": st.just("")}
    ),
)
remove_op = st.fixed_dictionaries(
    {"op": st.sampled_from(["rml", "rmq"]), "i": st.integers(-3, 2), "by": st.sampled_from(["index", "name", "neg"])}
)

op = st.one_of(
    setup_op,
    remove_op,
    st.fixed_dictionaries({"op": st.just("var"), "t": st.sampled_from("BIC"), "om": omit, "b": bounds, "n": st.sampled_from([None] + NAMES)}),
    st.fixed_dictionaries({"op": st.just("var"), "t": st.sampled_from("BIC"), "om": omit, "b": bounds, "n": st.just(None)}),
    st.fixed_dictionaries(
        {
            "op": st.sampled_from(["vlist", "vdict"]),
            "t": st.sampled_from("BIC"),
            "om": omit, "b": bounds,
            "n": st.sampled_from([None, "x", "y", "x1"]),
            "f": st.sampled_from(FMT + BAD_FMT[:1] + BAD_FMT[1:2]),
            "k": st.one_of(st.integers(-1, 3), st.lists(st.sampled_from(["0", "1", "2", "a", 3, 1]), max_size=3)),
        }
    ),
    st.fixed_dictionaries(
        {"op": st.just("lc"), "om": omit, "lin": pairs, "s": st.sampled_from(SENSES + BAD_SENSES), "r": G.dyadic,
         "n": st.sampled_from(CN), "bad": st.sampled_from([False, False, False, True])}
    ),
    st.fixed_dictionaries(
        {"op": st.just("qc"), "om": omit, "lin": pairs, "quad": triples, "s": st.sampled_from(SENSES + BAD_SENSES), "r": G.dyadic,
         "n": st.sampled_from(CN), "bad": st.sampled_from(["", "", "", "lin", "quad"])}
    ),
    st.fixed_dictionaries({"op": st.sampled_from(["rml", "rmq"]), "i": st.integers(-3, 4), "by": st.sampled_from(["index", "name", "neg", "missing"])}),
    st.fixed_dictionaries({"op": st.sampled_from(["rml", "rmq"]), "i": st.integers(0, 4), "by": st.sampled_from(["index", "name"])}),
    st.fixed_dictionaries(
        {"op": st.just("obj"), "om": omit, "m": st.sampled_from(["min", "max"]), "c": G.dyadic, "lin": pairs, "quad": triples,
         "bad": st.sampled_from([False, False, False, True])}
    ),
    st.fixed_dictionaries({"op": st.sampled_from(["lb", "ub"]), "i": st.integers(0, 6), "v": st.integers(-6, 6)}),
    st.fixed_dictionaries({"op": st.just("type"), "i": st.integers(0, 6), "t": st.sampled_from("BIC")}),
    st.fixed_dictionaries({"op": st.just("rhs"), "i": st.integers(0, 6), "v": G.dyadic, "s": st.sampled_from(["<=", ">=", "=="])}),
    st.fixed_dictionaries({"op": st.just("name"), "v": st.sampled_from(["p", "", "other"])}),
    st.fixed_dictionaries({"op": st.just("copy")}),
    st.fixed_dictionaries({"op": st.just("coef"), "q": st.booleans(), "c": st.integers(0, 6), "lin": pairs, "quad": triples}),
    st.fixed_dictionaries(
        {"op": st.just("objpart"), "m": st.sampled_from(["min", "max", None]), "c": st.one_of(st.none(), G.dyadic),
         "lin": st.one_of(st.none(), pairs), "quad": st.one_of(st.none(), triples)}
    ),
    st.fixed_dictionaries({"op": st.just("set"), "w": st.integers(0, 8), "i": st.integers(0, 6), "j": st.integers(0, 6), "v": G.dyadic,
                           "by": st.integers(0, 3), "q": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("clear")}),
)


class Ref:
    def __init__(self, name=""):
        self.p = {"name": name, "vars": [], "sense": "min", "const": 0, "lin": [], "quad": [], "lcs": [], "qcs": []}

    def names(self):
        return [v["n"] for v in self.p["vars"]]


def free(prefix, fmt, k, used):
    if "{" not in fmt:
        nm = prefix + fmt
        return (None, k) if nm in used else (nm, k + 1)
    while prefix + fmt.format(k) in used:
        k += 1
    return prefix + fmt.format(k), k + 1


def sense_of(s):
    if s.startswith("enum"):
        return M.SENSES[s[4:]], s[4:]
    c = s.upper()
    return s, {"E": "==", "EQ": "==", "=": "==", "==": "==", "L": "<=", "LE": "<=", "<": "<=", "<=": "<=",
               "G": ">=", "GE": ">=", ">": ">=", ">=": ">="}.get(c)


def verify(ctx, qp, ref):
    p = ref.p
    ctx.equal(M.read(qp), M.normal(p), "content")
    vs = p["vars"]
    ctx.equal(dict(qp.variables_index), {v["n"]: i for i, v in enumerate(vs)}, "variables_index")
    ctx.equal(dict(qp.linear_constraints_index), {c["n"]: i for i, c in enumerate(p["lcs"])}, "linear_constraints_index")
    ctx.equal(dict(qp.quadratic_constraints_index), {c["n"]: i for i, c in enumerate(p["qcs"])}, "quadratic_constraints_index")
    ctx.equal(qp.get_num_vars(), len(vs), "get_num_vars")
    for t, f in (("B", qp.get_num_binary_vars), ("I", qp.get_num_integer_vars), ("C", qp.get_num_continuous_vars)):
        n = sum(v["t"] == t for v in vs)
        ctx.equal(f(), n, "number of variables of type", t=t)
        ctx.equal(qp.get_num_vars(M.VT[t]), n, "get_num_vars(type)", t=t)
    ctx.equal(qp.get_num_linear_constraints(), len(p["lcs"]), "get_num_linear_constraints")
    ctx.equal(qp.get_num_quadratic_constraints(), len(p["qcs"]), "get_num_quadratic_constraints")
    ctx.equal(qp.status.name, "VALID", "status")
    for i, v in enumerate(vs):
        ctx.check(qp.get_variable(i) is qp.variables[i] and qp.get_variable(v["n"]) is qp.variables[i], "get_variable", i=i)
        ctx.equal(qp.variables[i].as_tuple(), (v["n"], v["l"], v["u"], M.VT[v["t"]]), "Variable.as_tuple")
        ctx.check(qp.variables[i].quadratic_program is qp, "variable's program")
    for i, c in enumerate(p["lcs"]):
        ctx.check(qp.get_linear_constraint(i) is qp.linear_constraints[i], "get_linear_constraint(index)", i=i)
        ctx.check(qp.get_linear_constraint(c["n"]) is qp.linear_constraints[i], "get_linear_constraint(name)", i=i)
    for i, c in enumerate(p["qcs"]):
        ctx.check(qp.get_quadratic_constraint(i) is qp.quadratic_constraints[i], "get_quadratic_constraint(index)", i=i)
        ctx.check(qp.get_quadratic_constraint(c["n"]) is qp.quadratic_constraints[i], "get_quadratic_constraint(name)", i=i)


def verify_values(ctx, qp, ref):
    """the expressions of a program have the values of the reference at a point with as many entries as there are variables now"""
    p = ref.p
    x = [((7 * i + 3) % 11 - 5) / 2 for i in range(len(p["vars"]))]
    if not x:
        return
    near = lambda got, want, what: ctx.check(abs(got - want) <= 1e-9 * (1e3 + abs(want)), what, got=got, want=want, x=x)
    near(qp.objective.evaluate(x), M.objective(p, x), "value of the objective")
    for cs, ls in ((qp.linear_constraints, p["lcs"]), (qp.quadratic_constraints, p["qcs"])):
        for c, d in zip(cs, ls):
            near(c.evaluate(x), M.ev_lin(d["lin"], x) + M.ev_quad(d.get("quad", []), x), "value of a constraint")
    g = qp.objective.evaluate_gradient(x)
    ctx.equal(len(g), len(x), "length of the gradient")
    want = [0.0] * len(x)
    for i, v in p["lin"]:
        want[i] += v
    for i, j, v in p["quad"]:
        want[i] += v * x[j]
        want[j] += v * x[i]
    for a, b in zip(g, want):
        near(a, b, "gradient of the objective")


def creators(qp, t, kind):
    base = {"B": "binary_var", "I": "integer_var", "C": "continuous_var"}[t]
    return getattr(qp, base + {"var": "", "vlist": "_list", "vdict": "_dict"}[kind])


def expand_bad(lin, quad, where, names):
    if where == "lin":
        return dict(lin, nosuch=1.0), quad
    if where == "quad":
        q = dict(quad)
        q[("nosuch", 0)] = 1.0
        return lin, q
    return lin, quad


def range_of(o):
    if o["t"] == "B":
        return 0, 1
    lb, ub = o["b"]
    om = o.get("om", 0)
    return (0 if om & 1 else lb), (G.INF if om & 2 else ub)


def bounds_kw(o, lb, ub):
    om = o.get("om", 0)
    kw = {} if om & 1 else {"lowerbound": lb}
    if not om & 2:
        kw["upperbound"] = ub
    return kw


def arguments(om, dl, dq, s, o, lin, quad, ms):
    """the arguments of a constraint creation, some left out, and what they mean"""
    args, r = {"name": o["n"]}, o["r"]
    if o["bad"]:
        om = 0
    if om & 1:
        lin = []
    else:
        args["linear"] = dl
    if om & 2:
        quad = []
    elif dq is not None:
        args["quadratic"] = dq
    if om & 4:
        ms = "<="
    else:
        args["sense"] = s
    if om & 8:
        r = 0
    else:
        args["rhs"] = r
    return args, lin, quad, ms, r


def step(ctx, qp, ref, o):
    p = ref.p
    names = ref.names()
    n = len(names)
    k = o["op"]
    om = o.get("om", 0)
    # anything the library documents as a rejection; a rejected edit must not change the program
    REJ = (QiskitOptimizationError, KeyError, IndexError)
    if k == "var":
        lb, ub = range_of(o)
        nm = o["n"]
        if nm is None:
            nm, _ = free("x", "{}", n, set(names))
        kw = {"name": o["n"]} if o["n"] is not None or o["t"] != "B" else {}
        f = creators(qp, o["t"], "var")
        if o["t"] != "B" and om:
            kw.update(bounds_kw(o, lb, ub))
            call = lambda: f(**kw)  # noqa
        else:
            call = (lambda: f(**kw)) if o["t"] == "B" else (lambda: f(lb, ub, **kw))
        if nm in names or lb > ub:
            ctx.raises(QiskitOptimizationError, call, "creating a variable must be rejected", op=o)
            ctx.label("rejected-var")
        else:
            v = call()
            p["vars"].append({"n": nm, "t": o["t"], "l": lb, "u": ub})
            ctx.check(v is qp.variables[-1], "returned variable is the new one")
    elif k in ("vlist", "vdict"):
        lb, ub = range_of(o)
        prefix = o["n"] if o["n"] is not None else "x"
        f = creators(qp, o["t"], k)
        args = dict(keys=o["k"], name=o["n"], key_format=o["f"])
        if o["t"] != "B":
            args.update(bounds_kw(o, lb, ub))
        rejected = o["f"] in BAD_FMT or lb > ub and (not isinstance(o["k"], list) or o["k"])
        new = []
        if isinstance(o["k"], int) and o["k"] < 1:
            rejected = True
        elif not rejected:
            used = set(names)
            if isinstance(o["k"], int):
                j = n
                for _ in range(o["k"]):
                    nm, j = free(prefix, o["f"], j, used)
                    if nm is None:
                        rejected = True
                        break
                    used.add(nm)
                    new.append(nm)
            else:
                for key in o["k"]:
                    try:
                        nm = prefix + o["f"].format(key)
                    except ValueError:
                        ctx.discard()
                    if nm in used:
                        rejected = True
                        break
                    used.add(nm)
                    new.append(nm)
        if rejected:
            ctx.raises(QiskitOptimizationError, lambda: f(**args), "creating variables must be rejected", op=o)
            ctx.label("rejected-vlist")
        else:
            r = f(**args)
            p["vars"].extend({"n": nm, "t": o["t"], "l": lb, "u": ub} for nm in new)
            if k == "vdict":
                ctx.equal(list(r.keys()), new, "keys of the returned dictionary")
                r = list(r.values())
            ctx.equal([v.name for v in r], new, "returned variables")
            ctx.check(all(a is b for a, b in zip(r, qp.variables[n:])), "returned variables are the new ones")
    elif k == "lc":
        lin = [[i % n, v] for i, v in o["lin"]] if n else []
        lin = [[i, v] for i, v in M.merge_lin(lin).items()]
        s, ms = sense_of(o["s"])
        dl, _ = expand_bad({names[i]: v for i, v in lin}, {}, "lin" if o["bad"] else "", names)
        args, lin, _, ms, r = arguments(om, dl, None, s, o, lin, None, ms)
        call = lambda: qp.linear_constraint(**args)  # noqa
        cn = [c["n"] for c in p["lcs"]]
        if ms is None or o["bad"] or (o["n"] and o["n"] in cn):
            ctx.raises(REJ, call, "adding a linear constraint must be rejected", op=o)
            ctx.label("rejected-lc")
        else:
            c = call()
            nm = o["n"] or free("c", "{}", len(cn), set(cn))[0]
            p["lcs"].append({"n": nm, "lin": lin, "s": ms, "r": r})
            ctx.check(c is qp.linear_constraints[-1], "returned linear constraint is the new one")
    elif k == "qc":
        lin = [[i % n, v] for i, v in o["lin"]] if n else []
        lin = [[i, v] for i, v in M.merge_lin(lin).items()]
        quad = [[i % n, j % n, v] for i, j, v in o["quad"]] if n else []
        dq = {}
        for i, j, v in quad:
            dq[(names[i], names[j])] = dq.get((names[i], names[j]), 0) + v
        dl, dq = expand_bad({names[i]: v for i, v in lin}, dq, o["bad"], names)
        s, ms = sense_of(o["s"])
        args, lin, quad, ms, r = arguments(om, dl, dq, s, o, lin, quad, ms)
        call = lambda: qp.quadratic_constraint(**args)  # noqa
        cn = [c["n"] for c in p["qcs"]]
        if ms is None or o["bad"] or (o["n"] and o["n"] in cn):
            ctx.raises(REJ, call, "adding a quadratic constraint must be rejected", op=o)
            ctx.label("rejected-qc")
        else:
            c = call()
            nm = o["n"] or free("q", "{}", len(cn), set(cn))[0]
            p["qcs"].append({"n": nm, "lin": lin, "quad": quad, "s": ms, "r": r})
            ctx.check(c is qp.quadratic_constraints[-1], "returned quadratic constraint is the new one")
    elif k in ("rml", "rmq"):
        lst = p["lcs" if k == "rml" else "qcs"]
        f = qp.remove_linear_constraint if k == "rml" else qp.remove_quadratic_constraint
        m = len(lst)
        i = o["i"]
        if o["by"] == "missing":
            ctx.raises(KeyError, lambda: f("no such name"), "removing an unknown name must raise KeyError")
        elif o["by"] == "name":
            if not m:
                return
            i %= m
            f(lst[i]["n"])
            del lst[i]
        elif o["by"] == "neg" or i < 0:
            if -m <= i < 0:
                f(i)
                del lst[i]
            elif i >= m or i < -m:
                ctx.raises(IndexError, lambda: f(i), "removing an out-of-range index must raise IndexError")
            else:
                f(i)
                del lst[i]
        else:
            if i >= m:
                ctx.raises(IndexError, lambda: f(i), "removing an out-of-range index must raise IndexError")
            else:
                f(i)
                del lst[i]
        ctx.label("remove")
    elif k == "obj":
        lin = [[i % n, v] for i, v in o["lin"]] if n else []
        lin = [[i, v] for i, v in M.merge_lin(lin).items()]
        quad = [[i % n, j % n, v] for i, j, v in o["quad"]] if n else []
        dq = {}
        for i, j, v in quad:
            dq[(i, j)] = dq.get((i, j), 0) + v
        dl, dq = expand_bad({i: v for i, v in lin}, dq, "quad" if o["bad"] else "", names)
        const = o["c"]
        if om and not o["bad"]:
            args = {}
            const = 0 if om & 1 else args.setdefault("constant", o["c"])
            lin = [] if om & 2 else args.setdefault("linear", dl) and lin
            quad = [] if om & 4 else args.setdefault("quadratic", dq) and quad
            call = lambda: (qp.minimize if o["m"] == "min" else qp.maximize)(**args)  # noqa
        else:
            call = lambda: (qp.minimize if o["m"] == "min" else qp.maximize)(o["c"], dl, dq)  # noqa
        if o["bad"]:
            ctx.raises(REJ, call, "setting the objective must be rejected", op=o)
        else:
            call()
            p.update(sense=o["m"], const=const, lin=lin, quad=quad)
    elif k in ("lb", "ub"):
        if not n:
            return
        v = p["vars"][o["i"] % n]
        var = qp.get_variable(v["n"])
        attr, key = ("lowerbound", "l") if k == "lb" else ("upperbound", "u")
        bad = o["v"] > v["u"] if k == "lb" else o["v"] < v["l"]
        if bad:
            ctx.raises(QiskitOptimizationError, lambda: setattr(var, attr, o["v"]), "an empty range must be rejected", op=o)
            ctx.label("rejected-bound")
        else:
            setattr(var, attr, o["v"])
            v[key] = o["v"]
    elif k == "type":
        if not n:
            return
        v = p["vars"][o["i"] % n]
        qp.get_variable(o["i"] % n).vartype = M.VT[o["t"]]
        v["t"] = o["t"]
    elif k == "rhs":
        if not p["lcs"]:
            return
        c = p["lcs"][o["i"] % len(p["lcs"])]
        lc = qp.get_linear_constraint(c["n"])
        lc.rhs = o["v"]
        lc.sense = M.SENSES[o["s"]]
        c["r"] = o["v"]
        c["s"] = o["s"]
    elif k == "name":
        qp.name = o["v"]
        p["name"] = o["v"]
    elif k == "coef":
        lst = p["qcs" if o["q"] else "lcs"]
        if not lst or not n:
            return
        c = lst[o["c"] % len(lst)]
        con = (qp.get_quadratic_constraint if o["q"] else qp.get_linear_constraint)(c["n"])
        c["lin"] = [[i, v] for i, v in M.merge_lin([[i % n, v] for i, v in o["lin"]]).items()]
        con.linear = dict(c["lin"])
        if o["q"]:
            c["quad"] = [[i % n, j % n, v] for i, j, v in o["quad"]]
            dq = {}
            for i, j, v in c["quad"]:
                dq[(i, j)] = dq.get((i, j), 0) + v
            con.quadratic = dq
    elif k == "objpart":
        if o["m"]:
            qp.objective.sense = qp.objective.Sense.MINIMIZE if o["m"] == "min" else qp.objective.Sense.MAXIMIZE
            p["sense"] = o["m"]
        if o["c"] is not None:
            qp.objective.constant = o["c"]
            p["const"] = o["c"]
        if o["lin"] is not None and n:
            p["lin"] = [[i, v] for i, v in M.merge_lin([[i % n, v] for i, v in o["lin"]]).items()]
            qp.objective.linear = dict(p["lin"])
        if o["quad"] is not None and n:
            p["quad"] = [[i % n, j % n, v] for i, j, v in o["quad"]]
            dq = {}
            for i, j, v in p["quad"]:
                dq[(i, j)] = dq.get((i, j), 0) + v
            qp.objective.quadratic = dq
    elif k == "set":
        # one coefficient of the objective (w = 0) or of a constraint, in place
        if not n:
            return
        w = o["w"] % (1 + len(p["lcs"]) + len(p["qcs"]))
        if w == 0:
            part, con = p, qp.objective
        elif w <= len(p["lcs"]):
            part, con = p["lcs"][w - 1], qp.get_linear_constraint(w - 1)
        else:
            part, con = p["qcs"][w - 1 - len(p["lcs"])], qp.get_quadratic_constraint(w - 1 - len(p["lcs"]))
        # the variable added last is the likeliest one to be forgotten
        i, j = [n - 1 if t == 6 else t % n for t in (o["i"], o["j"])]
        names = ref.names()
        a, b = names[i] if o["by"] & 1 else i, names[j] if o["by"] & 2 else j
        if o["q"] and "quad" in part and (w == 0 or w > len(p["lcs"])):
            con.quadratic[a, b] = o["v"]
            part["quad"] = [t for t in part["quad"] if sorted(t[:2]) != sorted([i, j])] + [[i, j, o["v"]]]
            ctx.equal(con.quadratic[b, a], o["v"], "a coefficient that was set", w=w, i=i, j=j)
        else:
            con.linear[a] = o["v"]
            part["lin"] = [t for t in part["lin"] if t[0] != i] + [[i, o["v"]]]
            ctx.equal(con.linear[i], o["v"], "a coefficient that was set", w=w, i=i)
    elif k == "clear":
        qp.clear()
        ref.p = Ref().p
        ctx.label("clear")


def check_history(s, ctx):
    qp = QuadraticProgram(s["name"])
    ref = Ref(s["name"])
    if s["start"] == "infeasible":
        # a program that a substitution marked infeasible can be cleared and used again
        old = QuadraticProgram("old")
        old.binary_var("x")
        old.binary_var("y")
        old.linear_constraint({"y": 1}, "<=", 1, "c0")
        qp = old.substitute_variables(constants={"x": 2})
        ctx.equal(qp.status.name, "INFEASIBLE", "an out-of-range constant marks the program")
        qp.clear()
        ref = Ref("")
    verify(ctx, qp, ref)
    copies = []
    for o in s["pre"] + s["ops"]:
        if o["op"] == "copy":
            # work goes on in the copy; the original must stay as it is
            copies.append((qp, copy.deepcopy(ref)))
            qp = copy.deepcopy(qp)
            for con in qp.linear_constraints + qp.quadratic_constraints + [qp.objective]:
                ctx.check(con.quadratic_program is qp, "elements of a copied program belong to the copy")
        else:
            step(ctx, qp, ref, o)
        verify(ctx, qp, ref)
        if s["values"]:
            verify_values(ctx, qp, ref)
        ctx.label("op=" + o["op"])
    verify_values(ctx, qp, ref)
    for old, old_ref in copies[-2:]:
        verify(ctx, old, old_ref)
    ctx.nontrivial(len(s["ops"]) >= 4 and (ref.p["vars"] or ref.p["lcs"] or ref.p["qcs"]))


case = st.fixed_dictionaries({"name": st.sampled_from(["", "prog"]), "start": st.sampled_from(["", "", "", "infeasible"]), "values": st.booleans(),
                              "pre": st.lists(setup_op, max_size=8), "ops": st.lists(op, min_size=4, max_size=25)})

@st.composite
def long_case(draw):
    return {"seed": draw(st.integers(0, 2 ** 31)), "ops": draw(st.integers(20, 70)), "mix": draw(st.integers(0, 2))}


def check_long(s, ctx):
    """long histories on programs with tens of variables and constraints; the operations come from a seed"""
    import random

    rnd = random.Random(s["seed"])
    kinds = [
        ["var"] * 4 + ["vlist", "vdict"] + ["lc"] * 5 + ["qc"] * 4 + ["rml", "rmq", "rhs", "coef", "set", "set", "lb", "obj"],
        ["var"] * 2 + ["lc"] * 8 + ["qc"] * 8 + ["rml"] * 3 + ["rmq"] * 3 + ["coef", "set", "type"],
        ["vlist", "vdict"] * 3 + ["var"] * 3 + ["lc", "qc", "obj", "objpart", "set", "set", "copy", "lb", "ub"],
    ][s["mix"]]

    def num():
        return rnd.choice([rnd.randint(-9, 9), rnd.randint(-99, 99) / 8, rnd.randint(-9, 9) * 2.0 ** -20, rnd.randint(-9, 9) * 2 ** 20])

    def lin(m=6):
        return [[rnd.randrange(60), num()] for _ in range(rnd.randint(0, m))]

    def quad(m=6):
        return [[rnd.randrange(60), rnd.randrange(60), num()] for _ in range(rnd.randint(0, m))]

    def name(letter):
        k = rnd.randrange(30)
        return None if k < 18 else "{}{}".format(letter, k - 18 + rnd.choice([0, 0, 10]))

    qp, ref = QuadraticProgram("long"), Ref("long")
    olds = []
    for _ in range(s["ops"]):
        k = rnd.choice(kinds)
        lb = rnd.randint(-5, 5)
        o = {"op": k, "t": rnd.choice("BIC"), "b": [lb, lb + rnd.randint(0, 9)], "n": name("x"), "om": rnd.choice([0, 0, 0, 1, 2, 3])}
        if k in ("vlist", "vdict"):
            o.update(n=rnd.choice([None, "x", "y"]), f=rnd.choice(["{}", "_{}", "[{}]"]), k=rnd.choice([rnd.randint(1, 4), 12, list(range(rnd.randint(1, 13)))]))
        elif k in ("lc", "qc"):
            o.update(lin=lin(), quad=quad(), s=rnd.choice(GOOD_SENSES), r=num(), n=name("c" if k == "lc" else "q"), bad=False if k == "lc" else "", om=0)
        elif k in ("rml", "rmq"):
            o.update(i=rnd.randint(-14, 14), by=rnd.choice(["index", "name", "neg"]))
        elif k in ("lb", "ub"):
            o.update(i=rnd.randrange(60), v=rnd.randint(-6, 6))
        elif k == "type":
            o.update(i=rnd.randrange(60))
        elif k == "rhs":
            o.update(i=rnd.randrange(60), v=num(), s=rnd.choice(["<=", ">=", "=="]))
        elif k == "coef":
            o.update(q=rnd.random() < 0.5, c=rnd.randrange(60), lin=lin(), quad=quad())
        elif k == "set":
            o.update(w=rnd.randrange(60), i=rnd.randrange(60), j=rnd.randrange(60), v=num(), by=rnd.randrange(4), q=rnd.random() < 0.6)
        elif k == "obj":
            o.update(m=rnd.choice(["min", "max"]), c=num(), lin=lin(20), quad=quad(30), bad=False, om=0)
        elif k == "objpart":
            o.update(m=rnd.choice(["min", "max", None]), c=num(), lin=lin(20), quad=quad(30))
        if k == "copy":
            olds.append((qp, copy.deepcopy(ref)))
            qp = copy.deepcopy(qp)
        else:
            step(ctx, qp, ref, o)
        ctx.equal(len(qp.variables), len(ref.p["vars"]), "number of variables", op=o)
        if rnd.random() < 0.15:
            verify(ctx, qp, ref)
    verify(ctx, qp, ref)
    verify_values(ctx, qp, ref)
    for old, old_ref in olds[-2:]:
        verify(ctx, old, old_ref)
    ctx.label("vars>=11" if len(ref.p["vars"]) >= 11 else "vars<11", "cons>=11" if len(ref.p["lcs"]) >= 11 or len(ref.p["qcs"]) >= 11 else "cons<11")
    ctx.nontrivial(len(ref.p["vars"]) >= 8 or len(ref.p["lcs"]) + len(ref.p["qcs"]) >= 8)


SUBCHECKS = [Sub("history", case, check_history, 12000, 200000), Sub("long", long_case(), check_long, 800, 12000)]
