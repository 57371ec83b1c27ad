#!/opt/venv/bin/python
"""Run the check of one property:  check.py C01 [--tier quick|thorough] [--replay FILE].

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: harness error.
"""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "VP_READY": "1",
}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B", "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])

sys.path[:0] = [HERE, os.path.join(HERE, "vendor"), "/repo/src"]

import argparse  # noqa: E402
import fnmatch  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import multiprocessing  # noqa: E402
import shutil  # noqa: E402
import signal  # noqa: E402
import tempfile  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402
from collections import Counter  # noqa: E402

from vp import engine  # noqa: E402
from vp.engine import CaseTimeout, Failure, HarnessError, Stats, Violation, run_case, run_hyp, run_rand  # noqa: E402

WORKERS = int(os.environ.get("VP_WORKERS") or max(1, min(8, os.cpu_count() or 1)))
BUDGET = {"quick": 240.0, "thorough": 2400.0}  # seconds; generation stops there, whatever is left


def worker(job, module, seed, scratch_root, out, deadline):
    """Run one job and write its result."""
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    scratch = tempfile.mkdtemp(dir=scratch_root)
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
    test = next(t for t in module.TESTS if t.name == job["test"])
    stats = Stats()
    result = {"job": job, "status": "ok"}
    start = time.monotonic()
    try:
        if job["backend"] == "corpus":
            for name, case in job["cases"]:
                try:
                    ctx = run_case(test, case, scratch)
                except Violation as violation:
                    raise Failure(case, f"[saved case {name}] {violation}") from violation
                except CaseTimeout:
                    raise Failure(case, f"[saved case {name}] no result in {test.cpu_limit} s of CPU time") from None
                stats.record(test, case, ctx)
        elif job["backend"] == "rand":
            run_rand(test, f"{seed}:{module.ID}", job["start"], job["stop"], stats, scratch, deadline)
        else:
            run_hyp(test, f"{seed}:{module.ID}:{test.name}:hyp:{job['start']}", job["stop"], stats, scratch, deadline)
    except Failure as failure:
        result.update(status="violation", case=failure.case, message=failure.message)
    except (Exception, CaseTimeout):  # noqa: B902
        result.update(status="error", message=traceback.format_exc())
    result["wall_s"] = round(time.monotonic() - start, 2)
    result["stats"] = stats.to_json()
    tmp = out + ".tmp"
    with open(tmp, "w") as fileobject:
        json.dump(result, fileobject)
    os.replace(tmp, out)
    shutil.rmtree(scratch, ignore_errors=True)


def load_corpus(prop):
    saved = {}
    folder = os.path.join(HERE, "corpus", prop)
    if os.path.isdir(folder):
        for name in sorted(os.listdir(folder)):
            if name.endswith(".json"):
                with open(os.path.join(folder, name)) as fileobject:
                    entry = json.load(fileobject)
                saved.setdefault(entry["test"], []).append((name, entry["case"]))
    return saved


def make_jobs(module, tier, only):
    jobs = []
    tests = [t for t in module.TESTS if only is None or fnmatch.fnmatch(t.name, only)]
    for test_name, cases in load_corpus(module.ID).items():
        if any(t.name == test_name for t in tests):
            jobs.append({"test": test_name, "backend": "corpus", "cases": cases, "cost": 10**9})
    for test in tests:
        factor = 1 if tier == "quick" else test.thorough
        shards = WORKERS if tier == "quick" else 4 * WORKERS
        total = test.rand * factor
        per = -(-total // shards) if total else 0
        for k in range(shards):
            start, stop = k * per, min(total, (k + 1) * per)
            if start < stop:
                jobs.append({"test": test.name, "backend": "rand", "start": start, "stop": stop})
        total = test.hyp * factor
        shards = max(1, min(shards // 2, -(-total // 50))) if total else 0
        for k in range(shards):
            jobs.append({"test": test.name, "backend": "hyp", "start": k, "stop": -(-total // shards)})
    # Corpus first, then hyp (start-up cost), then rand.
    jobs.sort(key=lambda j: {"corpus": 0, "hyp": 1, "rand": 2}[j["backend"]])
    return jobs


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("prop")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--replay")
    parser.add_argument("--only")
    parser.add_argument("--scale", type=float, default=1.0)
    args = parser.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    warnings.simplefilter("ignore")
    began = time.monotonic()

    import cognitivefactory.interactive_clustering as package

    if not os.path.abspath(package.__file__).startswith("/repo/src/"):
        engine.die(f"code under test comes from {package.__file__}, not /repo/src")
    module = importlib.import_module(f"vp.props.{args.prop.lower()}")
    if args.scale != 1.0:
        for test in module.TESTS:
            test.rand = int(test.rand * args.scale)
            test.hyp = int(test.hyp * args.scale)

    scratch_root = tempfile.mkdtemp(prefix="vp-check-")
    try:
        if args.replay:
            return replay(module, args.replay, scratch_root)
        return explore(module, args, seed, scratch_root, began)
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)


def replay(module, path, scratch_root):
    with open(path) as fileobject:
        entry = json.load(fileobject)
    test = next(t for t in module.TESTS if t.name == entry["test"])
    try:
        run_case(test, entry["case"], scratch_root)
    except (Violation, CaseTimeout) as violation:
        print(f"{module.ID} {test.name}: {violation}")
        print(f"VIOLATION property={module.ID} replay={path}")
        return 1
    except HarnessError as err:
        print(err, file=sys.stderr)
        return 2
    print(f"{module.ID} {test.name}: the saved case holds")
    return 0


def explore(module, args, seed, scratch_root, began):
    deadline = began + BUDGET[args.tier]
    jobs = make_jobs(module, args.tier, args.only)
    context = multiprocessing.get_context("fork")
    pending, running, results = list(enumerate(jobs)), {}, []
    failure = None
    while (pending or running) and failure is None:
        while pending and len(running) < WORKERS:
            number, job = pending.pop(0)
            out = os.path.join(scratch_root, f"job{number}.json")
            process = context.Process(target=worker, args=(job, module, seed, scratch_root, out, deadline))
            process.start()
            running[number] = (process, out, job)
        time.sleep(0.02)
        for number, (process, out, job) in list(running.items()):
            if process.is_alive():
                continue
            process.join()
            del running[number]
            if not os.path.exists(out):
                results.append({"job": job, "status": "error", "message": f"worker ended with code {process.exitcode}", "stats": Stats().to_json(), "wall_s": 0})
                continue
            with open(out) as fileobject:
                result = json.load(fileobject)
            results.append(result)
            if result["status"] == "violation" and failure is None:
                failure = result
    for process, _, _ in running.values():
        process.kill()
        process.join()

    errors = [r for r in results if r["status"] == "error"]
    evidence(module, args, seed, results, began, failure)
    if failure is not None:
        folder = os.path.join(HERE, "replays")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, f"{module.ID}-{failure['job']['test']}-seed{seed}.json")
        with open(path, "w") as fileobject:
            json.dump(
                {"property": module.ID, "test": failure["job"]["test"], "message": failure["message"], "case": failure["case"]},
                fileobject,
                indent=1,
            )
        print(f"{module.ID} {failure['job']['test']} ({failure['job']['backend']}): {failure['message'][:2000]}")
        print(f"VIOLATION property={module.ID} replay={path}")
        return 1
    for what in engine.findings(module.ID).values():
        print(f"KNOWN-FINDING: property={module.ID} {what}")
    if errors:
        print(errors[0]["message"], file=sys.stderr)
        print(f"{module.ID}: {len(errors)} job(s) failed in the harness", file=sys.stderr)
        return 2
    return 0


def evidence(module, args, seed, results, began, failure):
    hashes, labels, samples, per_test = set(), Counter(), [], {}
    evaluations = 0
    for result in results:
        stats = result["stats"]
        evaluations += stats["evaluations"]
        hashes.update(stats["hashes"])
        name = result["job"]["test"]
        for label, count in stats["labels"].items():
            labels[f"{name}:{label}"] += count
        entry = per_test.setdefault(name, {"corpus": 0, "rand": 0, "hyp": 0, "distinct_nontrivial": set(), "cpu_s": 0.0})
        entry[result["job"]["backend"]] += stats["evaluations"]
        entry["distinct_nontrivial"].update(stats["hashes"])
        entry["cpu_s"] = round(entry["cpu_s"] + result["wall_s"], 1)
        if sum(1 for s in samples if s["test"] == name) < 2:
            samples.extend(stats["samples"][:1])
    for entry in per_test.values():
        entry["distinct_nontrivial"] = len(entry["distinct_nontrivial"])
    document = {
        "property": module.ID,
        "tier": args.tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": module.RULE + " | " + "; ".join(f"{t.name}: {t.rule}" for t in module.TESTS if t.rule),
            "samples": samples[:8],
            "tests": per_test,
            "classes": dict(sorted(labels.items())),
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - began, 2),
        "violations": 0 if failure is None else 1,
    }
    folder = os.path.join(HERE, "evidence")
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, f"{module.ID}.json"), "w") as fileobject:
        json.dump(document, fileobject, indent=1)
    print(
        f"{module.ID} {args.tier} seed={seed}: {evaluations} cases, {len(hashes)} distinct non-trivial, "
        f"{document['wall_s']} s"
    )


if __name__ == "__main__":
    sys.exit(main())
