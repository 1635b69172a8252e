#!/opt/venv/bin/python
"""Entry point:  run.py <property id> [--tier quick|thorough] [--replay FILE] [--sub NAME] [--scale F]

Exit 0: the property held on every generated case.  Exit 1: a line
``VIOLATION property=<id> replay=<path>`` was printed.  Exit 2: the check could not run.
"""
import os
import sys

_ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "QISKIT_PARALLEL": "FALSE",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "HYPOTHESIS_STORAGE_DIRECTORY": "/nonexistent",
}
PYTHON = "/opt/venv/bin/python"
if os.environ.get("_VERIF_REEXEC") != "1" or any(os.environ.get(k) != v for k, v in _ENV.items()):
    os.environ.update(_ENV)
    os.environ["_VERIF_REEXEC"] = "1"
    os.execv(PYTHON, [PYTHON, "-W", "ignore"] + sys.argv)

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo").rstrip("/")  # another tree only while developing the checks
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.join(HERE, "vendor"))
sys.path.insert(0, HERE)

import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import logging  # noqa: E402
import multiprocessing as mp  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402
import zlib  # noqa: E402
from collections import Counter  # noqa: E402

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

from vlib import core  # noqa: E402

BUDGET = {"quick": 330.0, "thorough": 2400.0}
SHRINK = {"quick": 60.0, "thorough": 180.0}


def load_known():
    """known_findings.json: [{property, sub, spec_hash, what}] -- suppress exactly these cases."""
    path = os.path.join(HERE, "known_findings.json")
    try:
        with open(path) as fh:
            return json.load(fh)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


def _worker(conn, sub, seed, n, deadline, shrink_s):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        res = core.run_shard(sub, seed, n, deadline, shrink_s)
    except BaseException as ex:  # noqa
        res = {"sub": sub.name, "error": "{}\n{}".format(ex, traceback.format_exc()), "failure": None,
               "evaluations": 0, "skipped": 0, "hashes": set(), "labels": Counter(), "samples": [],
               "truncated": False}
    try:
        conn.send(res)
    finally:
        conn.close()


def write_replay(prop, sub, failure):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "{}_{}_{}.json".format(prop, sub, core.spec_hash(failure["spec"])))
    with open(path, "w") as fh:
        json.dump({"property": prop, "sub": sub, "spec": failure["spec"], "message": failure["message"]},
                  fh, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    tier = args.tier if args.tier in BUDGET else "quick"
    seed0 = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()

    try:
        import qiskit_optimization

        if not os.path.abspath(qiskit_optimization.__file__).startswith(REPO + "/"):
            print("ERROR: qiskit_optimization is not imported from " + REPO, file=sys.stderr)
            return 2
        mod = importlib.import_module("checks." + args.property.lower())
    except Exception:  # noqa
        traceback.print_exc()
        return 2
    prop = mod.PROPERTY
    subs = [s for s in mod.SUBCHECKS if not args.sub or s.name in args.sub.split(",")]

    if args.replay:
        with open(args.replay) as fh:
            rep = json.load(fh)
        sub = {s.name: s for s in mod.SUBCHECKS}[rep["sub"]]
        _, msg = core.run_case(sub, rep["spec"])
        if msg is None:
            print("replay: property {} holds on this case".format(prop))
            return 0
        print("replay: sub={} message={}".format(sub.name, msg))
        print("VIOLATION property={} replay={}".format(prop, os.path.abspath(args.replay)))
        return 1

    known = load_known()
    known_here = [k for k in known.get("known", []) if k["property"] == prop]

    # explicit cases first, then the generated shards
    failures = []
    errors = []
    agg = {}
    for s in subs:
        agg[s.name] = {"evaluations": 0, "explicit": len(s.explicit), "skipped": 0, "hashes": set(),
                       "labels": Counter(), "samples": [], "truncated": False}

    tasks = []
    for s in subs:
        n = int(max(1, (s.quick if tier == "quick" else s.thorough) * args.scale))
        shards = min(args.jobs, max(1, n // 25))
        per = (n + shards - 1) // shards
        for k in range(shards):
            seed = (seed0 * 1000003 + zlib.crc32((prop + s.name).encode()) + k * 7919) % (2 ** 31)
            tasks.append((s, seed, per))
    # interleave so the shards of the slow subchecks do not all come last
    deadline = t0 + BUDGET[tier]

    for s in subs:
        for spec in s.explicit:
            try:
                ctx, msg = core.run_case(s, spec)
            except core.Infra as ex:
                errors.append("{}: {}".format(s.name, ex))
                continue
            a = agg[s.name]
            a["evaluations"] += 1
            if ctx.is_nontrivial:
                a["hashes"].add(core.spec_hash(spec))
            a["labels"].update(ctx.labels)
            if msg is not None:
                failures.append((s.name, {"spec": spec, "message": msg}))

    mpc = mp.get_context("fork")
    running = []
    pending = list(tasks)
    hard = deadline + SHRINK[tier] + 150

    def is_known(name, failure):
        return any(k["sub"] == name and k["spec_hash"] == core.spec_hash(failure["spec"]) for k in known_here)

    stop = bool([f for f in failures if not is_known(*f)])
    if stop:
        pending = []
    while pending or running:
        while pending and len(running) < args.jobs:
            s, seed, n = pending.pop(0)
            r, w = mpc.Pipe(False)
            p = mpc.Process(target=_worker, args=(w, s, seed, n, deadline, SHRINK[tier]))
            p.start()
            w.close()
            running.append((p, r, s))
        still = []
        progressed = False
        for p, r, s in running:
            if r.poll(0):
                progressed = True
                try:
                    res = r.recv()
                except EOFError:
                    errors.append("{}: worker died (exit code {})".format(s.name, p.exitcode))
                    p.join()
                    continue
                p.join()
                a = agg[s.name]
                a["evaluations"] += res["evaluations"]
                a["skipped"] += res["skipped"]
                a["hashes"] |= res["hashes"]
                a["labels"].update(res["labels"])
                if len(a["samples"]) < 3:
                    a["samples"].extend(res["samples"][: 3 - len(a["samples"])])
                a["truncated"] |= res["truncated"]
                if res["error"]:
                    errors.append("{}: {}".format(s.name, res["error"]))
                if res["failure"]:
                    failures.append((s.name, res["failure"]))
                    if not is_known(s.name, res["failure"]):
                        pending = []
                        hard = min(hard, time.time() + 20)
            else:
                still.append((p, r, s))
        running = still
        if not progressed:
            time.sleep(0.02)
        if running and time.time() > hard:
            for p, r, s in running:
                p.terminate()
                if not failures:
                    errors.append("{}: shard stopped at the hard time limit".format(s.name))
            time.sleep(0.2)
            for p, r, s in running:
                if p.is_alive():
                    p.kill()
                p.join()
            running = []

    unknown = [f for f in failures if not is_known(*f)]
    evaluations = sum(a["evaluations"] for a in agg.values())
    distinct = sum(len(a["hashes"]) for a in agg.values())
    samples = []
    for s in subs:
        for sp in agg[s.name]["samples"][:1]:
            samples.append({"sub": s.name, "case": sp})
    if not samples:
        for s in subs:
            for sp in s.explicit[:1]:
                samples.append({"sub": s.name, "case": sp})
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed0,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": mod.RULE,
            "samples": samples,
            "by_subcheck": {
                name: {
                    "evaluations": a["evaluations"],
                    "distinct_nontrivial": len(a["hashes"]),
                    "outside_domain": a["skipped"],
                    "cut_by_time_budget": a["truncated"],
                    "labels": dict(a["labels"].most_common(40)),
                }
                for name, a in agg.items()
            },
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(unknown),
    }
    if not args.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(evidence, fh, indent=1)
    for k in known_here:
        print("KNOWN-FINDING: property={} {}".format(prop, k["what"]))
    for name, a in agg.items():
        print("{} {}: {} cases, {} distinct non-trivial{}".format(
            prop, name, a["evaluations"], len(a["hashes"]),
            " (cut by time budget)" if a["truncated"] else ""))
    print("{}: {} cases, {} distinct non-trivial, {:.1f} s".format(prop, evaluations, distinct, time.time() - t0))
    if unknown:
        seen = set()
        for name, failure in unknown:
            path = write_replay(prop, name, failure)
            if name in seen:
                continue
            seen.add(name)
            print("  sub={} case={}".format(name, core.canonical(failure["spec"])[:1500]))
            print("  {}".format(failure["message"][:1500]))
            print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e, file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
