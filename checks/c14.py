"""C14: GroverOptimizer reports consistent solutions."""
import numpy as np
from hypothesis import strategies as st
from qiskit import Aer, QuantumCircuit
from qiskit.utils import QuantumInstance, algorithm_globals

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import GroverOptimizer
from qiskit_optimization.converters import QuadraticProgramToQubo

from checks.c10 import qubo_values, slack_bits
from checks.c12 import verify_result, verify_samples
from vlib import gen as G
from vlib import model as M
from vlib.core import Sub

PROPERTY = "C14"
RULE = (
    "Programs (integer-valued, some fractional) with at most 4 QUBO variables (binary and integer variables, equality and inequality "
    "constraints with a small explicit penalty, both senses, zero and non-zero constants) whose value range fits the "
    "value register, run on Aer's statevector and shot simulators with generated seeds, optimizers reused. Non-trivial: "
    "the QUBO takes at least three different values; circuits - some executed circuit amplifies."
)


@st.composite
def prog(draw, small=st.integers(-3, 3)):
    p = draw(G.problem(types=draw(st.sampled_from(["B", "B", "BI"])), min_n=draw(st.integers(1, 2)), max_n=3, max_range=2, value=small,
                       cvalue=st.integers(-1, 1).filter(bool), max_lcs=1, allow_inf=False, max_quad=3))
    if draw(st.booleans()):
        p["const"] = 0
    while p["lcs"] and slack_bits(p) > 4:
        p["lcs"].pop()
    return p


@st.composite
def case(draw):
    small = draw(st.sampled_from([st.integers(-3, 3)] * 3 + [st.integers(-12, 12).map(lambda k: k / 4)]))
    return {"ps": [draw(prog(small)) for _ in range(draw(st.sampled_from([1, 1, 2])))], "seed": draw(st.integers(0, 10 ** 6)),
            "sv": draw(st.booleans()), "it": draw(st.integers(1, 5)), "extra": draw(st.integers(0, 1)), "pen": draw(st.sampled_from([1, 2, 3])),
            "conv": draw(st.sampled_from(["default", "explicit", "none"]))}


SHOTS = 150


def backend(sv, seed):
    be = Aer.get_backend("statevector_simulator" if sv else "aer_simulator")
    return Measured(be, shots=SHOTS, seed_simulator=seed, seed_transpiler=seed)


class Measured(QuantumInstance):
    """remembers the distribution over (integers of) bitstrings of every circuit it runs"""

    def execute(self, circuits, had_transpiled=False):
        res = super().execute(circuits, had_transpiled)
        if self.is_statevector:
            prob = np.abs(np.array(res.get_statevector(circuits))) ** 2
            dist = {i: prob[i] for i in np.nonzero(prob > 1e-12)[0]}
        else:
            dist = {int(b, 2): c / SHOTS for b, c in res.get_counts(circuits).items()}
        self.__dict__.setdefault("seen", []).append(dist)
        return res


def marginal(dist, n):
    """distribution of the first n qubits, qubit i at position i"""
    out = {}
    for i, q in dist.items():
        z = tuple((int(i) >> k) & 1 for k in range(n))
        out[z] = out.get(z, 0) + q
    return {z: q for z, q in out.items() if q > 2e-6}


def check(s, ctx):
    algorithm_globals.random_seed = s["seed"]
    m = None
    qubos = []
    for p in s["ps"]:
        d = M.read(QuadraticProgramToQubo(penalty=s["pen"]).convert(M.build(p)))
        if len(d["vars"]) > 4:
            ctx.discard()
        _, F = qubo_values(d)
        span = max(F.max() - F.min(), np.abs(F).max())
        need = int(span).bit_length() + 1 + s["extra"]
        m = max(m or 0, need)
        qubos.append((d, F))
    if m > 8:
        ctx.discard()
    kw = {"default": {"penalty": s["pen"]}, "explicit": {"converters": QuadraticProgramToQubo(penalty=s["pen"])}, "none": {"penalty": s["pen"]}}[s["conv"]]
    plain = all(not p["lcs"] and all(v["t"] == "B" for v in p["vars"]) for p in s["ps"])
    if s["conv"] == "none" and plain:
        kw = {"converters": []}
    be = backend(s["sv"], s["seed"])
    opt = GroverOptimizer(m, num_iterations=s["it"], quantum_instance=be, **kw)
    for p, (d, F) in zip(s["ps"], qubos):
        qp = M.build(p)
        snap = M.snapshot(qp)
        ctx.check(opt.is_compatible(qp), "compatible")
        be.seen = []
        res = opt.solve(qp)
        ctx.equal(M.snapshot(qp), snap, "the program must not change")
        n = len(d["vars"])
        whole = all(float(f).is_integer() for f in F)
        x = verify_result(ctx, p, qp, res)
        ctx.equal((res.n_input_qubits, res.n_output_qubits), (n, m), "qubit numbers")
        sign = M.sgn(p)
        ctx.check(any(abs(res.intermediate_fval - f) < 1e-7 for f in F), "intermediate_fval is a value of the QUBO", got=res.intermediate_fval)
        if plain:
            ctx.close(res.intermediate_fval, res.fval, "intermediate_fval of an unconstrained binary program")
        iv = sign * res.intermediate_fval
        # with fractional values the value register only holds approximations
        ctx.check(not whole or iv <= res.threshold + 1e-7, "the solution is at least as good as the threshold reached", iv=iv, threshold=res.threshold)
        if not whole:
            pass
        elif not (d["const"] == 0 and res.threshold >= 0):
            ctx.close(iv, res.threshold, "the solution attains the threshold reached")
        else:
            ctx.close(iv, 0, "without negative values the zero point is reported")
        # raw samples
        tot = 0
        seen = set()
        for r in res.raw_samples:
            z = tuple(int(a) for a in r.x)
            ctx.equal(len(z), n, "length of a raw sample")
            ctx.check(z not in seen, "raw samples are distinct")
            seen.add(z)
            ctx.close(r.fval, M.objective(d, z), "QUBO value of a raw sample", z=z, tol=1e-8)
            tot += r.probability
        ctx.close(tot, 1, "probabilities of raw samples add up to one", tol=1e-3)
        raw = {tuple(int(a) for a in r.x): float(r.probability) for r in res.raw_samples}
        ctx.check(
            any(set(w) <= set(raw) and all(abs(raw[z] - w.get(z, 0)) < 1e-5 for z in raw) for w in (marginal(e, n) for e in be.seen)),
            "the raw samples are the measured distribution of one of the executed circuits", raw=sorted(raw.items()),
            measured=[sorted(marginal(e, n).items()) for e in be.seen][:4])
        ctx.equal(len(res.operation_counts), len(be.seen), "operation counts of every executed circuit")
        fv = [sign * r.fval for r in res.raw_samples]
        ctx.check(all(a <= b + 1e-8 for a, b in zip(fv, fv[1:])), "raw samples are sorted, best first", f=fv)
        verify_samples(ctx, p, res.samples)
        ctx.close(sum(sm.probability for sm in res.samples), 1, "probabilities add up to one", tol=1e-3)
        merged = {}
        ref = QuadraticProgramToQubo(penalty=s["pen"])
        ref.convert(qp)
        for r in res.raw_samples:
            key = tuple(float(a) for a in ref.interpret(r.x))
            merged[key] = merged.get(key, 0) + r.probability
        got = {tuple(float(a) for a in sm.x): sm.probability for sm in res.samples}
        ctx.equal(set(got), set(merged), "samples are the interpreted raw samples")
        for k in got:
            ctx.close(got[k], merged[k], "probability of a sample", tol=1e-7)
        ctx.nontrivial(len(set(np.round(F, 6))) > 2)
        ctx.label("n={}".format(n), "whole" if whole else "fractional", "statevector" if s["sv"] else "shots", p["sense"], "zero" if res.threshold >= 0 else "negative")


class Recorder(QuantumInstance):
    """remembers the final states of the circuits it runs"""

    def __init__(self, seed):
        super().__init__(Aer.get_backend("statevector_simulator"), seed_simulator=seed, seed_transpiler=seed)
        self.states = []

    def execute(self, circuits, had_transpiled=False):
        res = super().execute(circuits, had_transpiled)
        self.states.append(np.array(res.get_statevector(circuits)))
        return res


@st.composite
def circuit_case(draw):
    return {"p": draw(prog()), "seed": draw(st.integers(0, 10 ** 6)), "it": draw(st.integers(2, 8)), "pen": 1}


def check_circuits(s, ctx):
    """every circuit holds x and Q(x) - threshold, amplified where that is negative"""
    p = s["p"]
    algorithm_globals.random_seed = s["seed"]
    d = M.read(QuadraticProgramToQubo(penalty=s["pen"]).convert(M.build(p)))
    n = len(d["vars"])
    _, F = qubo_values(d)
    m = int(max(F.max() - F.min(), np.abs(F).max())).bit_length() + 1
    if n > 4 or m > 8:
        ctx.discard()
    rec = Recorder(s["seed"])
    res = GroverOptimizer(m, num_iterations=s["it"], quantum_instance=rec, penalty=s["pen"]).solve(M.build(p))
    sign = M.sgn(p)
    q = {}
    for k in range(2 ** n):
        q[k] = sign * M.objective(d, [(k >> i) & 1 for i in range(n)])
    thresholds = []
    amplified = False
    for state in rec.states:
        prob = np.abs(state) ** 2
        keys = np.zeros(2 ** n)
        values = {}
        for i in np.nonzero(prob > 1e-9)[0]:
            key = i & (2 ** n - 1)
            keys[key] += prob[i]
            # the first value qubit is the sign, the last one the unit
            v = sum((int(i) >> (n + m - 1 - b) & 1) << b for b in range(m))
            values.setdefault(int(key), set()).add(v)
        ts = set()
        for key, vs in values.items():
            ctx.equal(len(vs), 1, "every x carries one value", x=key)
            v = next(iter(vs))
            ts.add(round(q[key] - v) % 2 ** m)
        ctx.equal(len(ts), 1, "the value register holds Q(x) minus a threshold", values=values, q=q)
        t = next(iter(ts))
        # good states: the sign bit is set
        good = [k for k in q if (round(q[k]) - t) % 2 ** m >= 2 ** (m - 1)]
        theta = np.arcsin(np.sqrt(len(good) / 2 ** n))
        pg = float(sum(keys[k] for k in good))
        options = [np.sin((2 * r + 1) * theta) ** 2 for r in range(0, 12)]
        ctx.check(any(abs(pg - o) < 1e-6 for o in options), "weight of the states below the threshold follows Grover's law", got=pg, t=t, good=good)
        if good and abs(pg - options[0]) > 1e-6:
            amplified = True
        for k in q:
            w = pg / len(good) if k in good else (1 - pg) / (2 ** n - len(good))
            ctx.close(keys[k], w, "states of one kind are equally likely", tol=1e-6, k=k)
        thresholds.append(t)
    ctx.equal(thresholds[0], 0, "the search starts at threshold zero")
    cand = {round(v) % 2 ** m for v in q.values()}
    ctx.check(all(t in cand for t in thresholds[1:]), "later thresholds are values of the objective", t=thresholds, values=sorted(cand))
    ctx.equal(thresholds[-1], round(res.threshold) % 2 ** m, "the reported threshold is the last one searched", t=thresholds)
    ctx.nontrivial(amplified)
    ctx.label("amplified" if amplified else "plain", "circuits={}".format(min(9, len(thresholds))))


class Scripted(QuantumInstance):
    """a device on which every circuit is measured in a chosen x, holding Q(x) minus the threshold reached so far"""

    def __init__(self, keys, q, n, m, seed):
        super().__init__(Aer.get_backend("aer_simulator"), shots=8, seed_simulator=seed, seed_transpiler=seed)
        self.keys, self.q, self.n, self.m = keys, q, n, m
        self.measured = []

    def execute(self, circuits, had_transpiled=False):
        k = self.keys[len(self.measured) % len(self.keys)] % 2 ** self.n
        v = round(self.q[k] - min([self.q[j] for j in self.measured], default=0)) % 2 ** self.m
        self.measured.append(k)
        qc = QuantumCircuit(self.n + self.m, name=circuits.name)
        for i in range(self.n):
            if k >> i & 1:
                qc.x(i)
        for b in range(self.m):
            if v >> b & 1:
                qc.x(self.n + self.m - 1 - b)
        qc.measure_all()
        return super().execute(qc, had_transpiled)


@st.composite
def schedule_case(draw):
    return {"p": draw(prog(st.integers(-5, 5).filter(bool))), "seed": draw(st.integers(0, 10 ** 6)), "it": draw(st.integers(1, 6)), "pen": 1, "extra": draw(st.integers(0, 1)),
            "keys": draw(st.lists(st.integers(0, 15), min_size=draw(st.sampled_from([1, 4, 8])), max_size=24)), "order": draw(st.sampled_from(["free", "down"]))}


def check_schedule(s, ctx):
    """the search over a given sequence of measurements: when it stops and what it reports"""
    p = s["p"]
    algorithm_globals.random_seed = s["seed"]
    qp = M.build(p)
    d = M.read(QuadraticProgramToQubo(penalty=s["pen"]).convert(qp))
    n = len(d["vars"])
    _, F = qubo_values(d)
    m = int(max(F.max() - F.min(), np.abs(F).max())).bit_length() + 1 + s["extra"]
    if n > 4 or m > 9:
        ctx.discard()
    sign = M.sgn(p)
    q = {k: sign * M.objective(d, [(k >> i) & 1 for i in range(n)]) for k in range(2 ** n)}
    keys = [k % 2 ** n for k in s["keys"]]
    it = s["it"]
    if s["order"] == "down":
        it += s["seed"] % 3
        # several improvements, one after the other, each one repeated
        keys = [k for k in sorted(keys, key=lambda k: -q[k]) for _ in range(s["seed"] % 3 + 1)]
    dev = Scripted(keys, q, n, m, s["seed"])
    res = GroverOptimizer(m, num_iterations=it, quantum_instance=dev, penalty=s["pen"]).solve(qp)
    best = None
    idle = 0
    for t, k in enumerate(dev.measured):
        ctx.check(idle < it, "the search stops after num_iterations circuits without an improvement", measured=dev.measured, q=q)
        if best is None or q[k] < q[best]:
            best, idle = k, 0
        else:
            idle += 1
    ctx.check(idle == it or len(set(dev.measured)) == 2 ** n, "the search stopped early", measured=dev.measured, q=q, idle=idle)
    ctx.equal(len(res.operation_counts), len(dev.measured), "operation counts of every executed circuit")
    ctx.close(res.threshold, q[best], "the threshold is the best value measured", measured=dev.measured)
    if d["const"] == 0 and q[best] >= 0:
        ctx.close(res.intermediate_fval, 0, "without negative values the zero point is reported")
    else:
        ref = QuadraticProgramToQubo(penalty=s["pen"])
        ref.convert(qp)
        z = [(best >> i) & 1 for i in range(n)]
        ctx.equal([float(a) for a in res.x], [float(a) for a in ref.interpret(z)], "the best candidate measured is returned", measured=dev.measured, q=q)
        ctx.close(sign * res.intermediate_fval, q[best], "intermediate_fval is the value of the best candidate")
    raw = [([int(a) for a in r.x], float(r.probability)) for r in res.raw_samples]
    ctx.equal(raw, [([(best >> i) & 1 for i in range(n)], 1.0)], "raw samples are those of the circuit that gave the best candidate", measured=dev.measured)
    verify_result(ctx, p, qp, res)
    improvements = sum(1 for t, k in enumerate(dev.measured) if t and q[k] < min(q[j] for j in dev.measured[:t]))
    ctx.nontrivial(improvements > 0)
    ctx.label("improvements={}".format(min(3, improvements)), "all-seen" if idle < it else "limit")


@st.composite
def bad_case(draw):
    return {"p": draw(G.problem(types="BIIC", max_n=3, max_range=3, max_lcs=2, max_qcs=1, allow_inf=False,
                                cvalue=draw(st.sampled_from([G.nz_ints, G.nz_dyadic]))))}


def check_bad(s, ctx):
    p = s["p"]
    frac = any(not float(v).is_integer() for c in p["lcs"] for v in M.merge_lin(c["lin"]).values())
    if not (frac or any(v["t"] == "C" for v in p["vars"]) or p["qcs"]):
        ctx.discard()
    qp = M.build(p)
    opt = GroverOptimizer(3, quantum_instance=backend(True, 1))
    ctx.check(not opt.is_compatible(qp) and opt.get_compatibility_msg(qp), "incompatible")
    ctx.raises(QiskitOptimizationError, lambda: opt.solve(qp), "incompatible programs must be rejected")
    ctx.raises(AttributeError, lambda: GroverOptimizer(3).solve(qp), "no quantum instance")
    ctx.nontrivial()


SUBCHECKS = [
    Sub("search", case(), check, 480, 5000, hang_s=300),
    Sub("circuits", circuit_case(), check_circuits, 480, 4000, hang_s=300),
    Sub("schedule", schedule_case(), check_schedule, 800, 5000, hang_s=300),
    Sub("incompatible", bad_case(), check_bad, 100, 500),
]
