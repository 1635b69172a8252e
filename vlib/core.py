"""Core of the property-based testing harness.

A property module (``/verif/checks/cNN.py``) defines ``PROPERTY``, ``RULE`` and ``SUBCHECKS``, a list of
:class:`Sub`.  A subcheck draws a *plain JSON* case ("spec") from a Hypothesis strategy and passes it to a
check function, which drives the code under test and compares what it observes with an oracle.  Since the
case is plain data, a shrunk failing case is written out as a replay file and can be run again without
Hypothesis.
"""
from __future__ import annotations

import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable, List, Optional


class Violation(Exception):
    """The property under test does not hold for this case."""


class Hang(BaseException):
    """The case did not end within its (very generous) time limit."""


class Infra(Exception):
    """The check itself could not run (not a statement about the property)."""


class Discard(Exception):
    """The case lies outside the property's domain."""


@dataclass
class Sub:
    name: str
    strategy: Any
    check: Callable[[Any, "Ctx"], None]
    quick: int = 200
    thorough: int = 4000
    explicit: List[Any] = field(default_factory=list)
    hang_s: int = 120
    doc: str = ""


class Ctx:
    """Per-case context: labels, non-triviality, assertion helpers."""

    def __init__(self):
        self.labels: List[str] = []
        self.is_nontrivial = False
        self.skipped = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def discard(self):
        raise Discard()

    def fail(self, msg, **kw):
        if kw:
            msg += " | " + ", ".join("{}={!r}".format(k, v) for k, v in kw.items())
        raise Violation(msg)

    def check(self, cond, msg, **kw):
        if not cond:
            self.fail(msg, **kw)

    def equal(self, got, want, msg, **kw):
        if not bool(got == want):
            self.fail(msg, got=got, want=want, **kw)

    def close(self, got, want, msg, tol=1e-9, **kw):
        """|got - want| <= tol * max(1, |want|), both real numbers (complex with zero imaginary)."""
        try:
            g = complex(got)
            w = complex(want)
        except Exception as ex:  # noqa
            self.fail(msg + " (not a number)", got=got, want=want, **kw)
        if math.isinf(w.real):
            ok = g == w
        else:
            ok = abs(g - w) <= tol * max(1.0, abs(w))
        if not ok:
            self.fail(msg, got=got, want=want, **kw)

    def all_close(self, got, want, msg, tol=1e-9, **kw):
        got = list(got)
        want = list(want)
        if len(got) != len(want):
            self.fail(msg + " (length)", got=got, want=want, **kw)
        for i, (g, w) in enumerate(zip(got, want)):
            self.close(g, w, msg, tol=tol, at=i, got_all=got, want_all=want, **kw)

    def raises(self, exc, fn, msg, **kw):
        """fn() must raise ``exc``; returns the exception."""
        try:
            ret = fn()
        except exc as ex:
            return ex
        self.fail(msg + " (no {} raised)".format(getattr(exc, "__name__", exc)), returned=repr(ret)[:300], **kw)


def canonical(spec) -> str:
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


def spec_hash(spec) -> str:
    return hashlib.blake2b(canonical(spec).encode(), digest_size=8).hexdigest()


class _Alarm:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(signum, frame):
            raise Hang()

        self.old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def _summarise(ex: BaseException) -> str:
    if isinstance(ex, (Violation, AssertionError)):
        return str(ex) or repr(ex)
    tb = traceback.extract_tb(ex.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "qiskit_optimization" in fr.filename or "/checks/" in fr.filename:
            where = " at {}:{} in {}".format(fr.filename, fr.lineno, fr.name)
            break
    return "unexpected {}: {}{}".format(type(ex).__name__, ex, where)


def run_case(sub: Sub, spec, hang_s=None):
    """Runs one case.  Returns (ctx, None) or (ctx, failure message)."""
    ctx = Ctx()
    spec = json.loads(json.dumps(spec))  # the check never sees generator objects
    try:
        with _Alarm(hang_s or sub.hang_s):
            sub.check(spec, ctx)
    except Discard:
        ctx.skipped = True
        return ctx, None
    except (MemoryError, Infra, OSError) as ex:
        raise Infra("{}: {}".format(type(ex).__name__, ex)) from ex
    except KeyboardInterrupt:
        raise
    except Hang:
        return ctx, "HANG: case did not end within {} s".format(hang_s or sub.hang_s)
    except Exception as ex:  # noqa: every other exception is a broken promise of the code under test
        if type(ex).__module__.startswith("hypothesis"):
            raise
        return ctx, _summarise(ex)
    return ctx, None


def run_shard(sub: Sub, seed: int, examples: int, deadline: float, shrink_s: float):
    """Runs one shard of one subcheck under Hypothesis; returns a plain dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine
    from hypothesis.errors import HypothesisException

    engine.MAX_SHRINKING_SECONDS = shrink_s

    out = {
        "sub": sub.name,
        "evaluations": 0,
        "skipped": 0,
        "hashes": set(),
        "labels": Counter(),
        "samples": [],
        "failure": None,
        "truncated": False,
        "error": None,
    }
    state = {"failed": False}

    def body(spec):
        if not state["failed"] and time.time() > deadline:
            out["truncated"] = True
            return
        ctx, msg = run_case(sub, spec)
        if ctx.skipped:
            out["skipped"] += 1
            return
        if not state["failed"]:
            out["evaluations"] += 1
            if ctx.is_nontrivial:
                h = spec_hash(spec)
                if h not in out["hashes"]:
                    out["hashes"].add(h)
                    if len(out["samples"]) < 2 and len(out["hashes"]) % 7 == 3:
                        out["samples"].append(json.loads(json.dumps(spec)))
            out["labels"].update(ctx.labels)
        if msg is not None:
            state["failed"] = True
            out["failure"] = {"spec": json.loads(json.dumps(spec)), "message": msg}
            if msg.startswith("HANG"):
                raise Hang()
            raise Violation(msg)

    test = settings(
        max_examples=examples,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        verbosity=hypothesis.Verbosity.quiet,
    )(hypothesis.seed(seed)(given(sub.strategy)(body)))
    try:
        test()
    except (Violation, Hang):
        pass
    except Infra as ex:
        out["error"] = str(ex)
    except HypothesisException as ex:
        if out["failure"] is None:
            out["error"] = "{}: {}".format(type(ex).__name__, ex)
    except BaseException as ex:  # noqa
        if out["failure"] is None:
            out["error"] = "{}: {}\n{}".format(type(ex).__name__, ex, traceback.format_exc())
    return out
