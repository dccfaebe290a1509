"""
Shared harness of all checks.

A check module (``checks/cNN.py``) declares

    PROPERTY     the property identifier
    RULE         how cases are made and what makes one non-trivial
    ASSUMPTIONS  list of assumptions that go in the evidence file
    PARTS        list of Part(name, strategy(), run, quick=N, thorough=M[, corpus=[...]])

A strategy yields *plain JSON-able case specifications*; ``run(spec)`` rebuilds everything from the specification,
exercises the code in /repo, raises ``Violation`` when the oracle disagrees, and returns a ``Result``.  The specification
that remains after shrinking is the replay file.
"""

from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable, Optional

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # another tree only during development


class Violation(Exception):
    "The oracle disagrees with the code under test."


class HarnessError(Exception):
    "The check itself is broken."


class CaseTimeout(BaseException):
    pass


@dataclass
class Result:
    nontrivial: bool = True
    labels: tuple[str, ...] = ()
    key: Any = None  # what makes the case distinct; the specification itself if None


@dataclass
class Part:
    name: str
    strategy: Callable[[], Any]
    run: Callable[[Any], Optional[Result]]
    quick: int = 200
    thorough: int = 4000
    corpus: list = field(default_factory=list)
    workers: int = 0  # 0: split evenly in chunks


def check(condition: bool, message: Any, *args: Any) -> None:
    if not condition:
        if callable(message):
            message = message()
        raise Violation(str(message))


def check_equal(actual: Any, expected: Any, what: str) -> None:
    if actual != expected:
        raise Violation(f"{what}: expected {expected!r}, got {actual!r}")


def canonical(spec: Any) -> str:
    return json.dumps(spec, sort_keys=True, ensure_ascii=True, default=repr)


def derive_seed(*parts: Any) -> int:
    digest = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(digest[:7], "big")


def _passes_through_repo(exc: BaseException) -> bool:
    seen = set()
    stack: list[BaseException] = [exc]
    while stack:
        e = stack.pop()
        if id(e) in seen:
            continue
        seen.add(id(e))
        for frame, _ in traceback.walk_tb(e.__traceback__):
            if os.path.abspath(frame.f_code.co_filename).startswith(REPO + "/pysqlsync/"):
                return True
        for nxt in (e.__cause__, e.__context__):
            if nxt is not None:
                stack.append(nxt)
    return False


CASE_SECONDS = 90


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(part: Part, spec: Any) -> tuple[Optional[str], Optional[Result]]:
    "Runs one case; returns (violation message or None, result)."

    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    try:
        try:
            result = part.run(spec)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as e:
        return str(e), None
    except CaseTimeout:
        return f"case did not finish in {CASE_SECONDS} seconds", None
    except HarnessError:
        raise
    except Exception as e:
        if _passes_through_repo(e) or getattr(e, "__violation__", False):
            lines = traceback.format_exception(type(e), e, e.__traceback__)
            return "unexpected exception\n" + "".join(lines)[-6000:], None
        raise
    return None, (result or Result())


class _CaseFailed(Exception):
    pass


def _job(args) -> dict:
    module_name, part_name, worker, count, seed, deadline = args
    out: dict = {
        "part": part_name,
        "worker": worker,
        "evaluations": 0,
        "keys": [],
        "labels": {},
        "samples": [],
        "failure": None,
        "error": None,
    }
    try:
        _job_inner(module_name, part_name, worker, count, seed, out)
    except BaseException as e:  # noqa
        out["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-8000:]
    return out


def _job_inner(module_name, part_name, worker, count, seed, out) -> None:
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = 60

    module = importlib.import_module(module_name)
    part = next(p for p in module.PARTS if p.name == part_name)
    keys: set[str] = set()
    labels: dict[str, int] = {}
    rnd = random.Random(seed)
    last_failure: list = []

    def execute(spec: Any) -> None:
        out["evaluations"] += 1
        message, result = run_case(part, spec)
        if message is not None:
            last_failure[:] = [(spec, message)]
            raise _CaseFailed(message)
        if result.nontrivial:
            keyobj = spec if result.key is None else result.key
            digest = hashlib.sha256(canonical([part_name, keyobj]).encode()).hexdigest()[:20]
            if digest not in keys:
                keys.add(digest)
                if len(out["samples"]) < 2 or rnd.random() < 0.01:
                    text = canonical(spec)
                    if len(text) < 4000:
                        out["samples"].append({"part": part_name, "case": json.loads(text)})
        else:
            labels["(trivial)"] = labels.get("(trivial)", 0) + 1
        for label in result.labels:
            labels[label] = labels.get(label, 0) + 1

    try:
        if worker == 0:
            for spec in part.corpus:
                execute(json.loads(canonical(spec)))

        if count > 0:
            @hypothesis.seed(derive_seed(seed, part_name, worker))
            @settings(
                max_examples=count,
                database=None,
                deadline=None,
                derandomize=False,
                print_blob=False,
                report_multiple_bugs=False,
                verbosity=Verbosity.quiet,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck),
            )
            @given(part.strategy())
            def test(spec):
                execute(spec)

            test()
    except _CaseFailed:
        pass
    except BaseException:
        if not last_failure:
            raise
    finally:
        out["keys"] = sorted(keys)
        out["labels"] = labels
        out["samples"] = out["samples"][:4]
    if last_failure:
        spec, message = last_failure[0]
        # what is reported must be reproducible from the specification alone
        for _ in range(3):
            again, _r = run_case(part, json.loads(canonical(spec)))
            if again is not None:
                out["failure"] = (spec, again)
                return
        out["failure"] = (spec, message + "\n(not reproduced on immediate re-execution)")


def load_known(prop: str) -> list[dict]:
    """
    Lines of the known-findings file are either ``known: {"property", "part", "what", "spec"}`` or
    ``fixed: property=<id> <commit> <what failed>`` (which suppresses nothing).
    """

    path = os.path.join(VERIF, "known_findings.txt")
    items = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            item = json.loads(line[len("known:"):])
            if item["property"] == prop:
                items.append(item)
    return items


def main(argv: list[str]) -> int:
    import argparse

    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=None)
    parser.add_argument("--replay", default=None)
    parser.add_argument("--part", default=None)
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    opts = parser.parse_args(argv)

    tier = opts.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    prop = opts.property.upper()
    module_name = f"checks.{prop.lower()}"
    start = time.time()
    module = importlib.import_module(module_name)

    import pysqlsync

    if not os.path.abspath(pysqlsync.__file__).startswith(REPO + "/"):
        print(f"pysqlsync is not imported from {REPO}", file=sys.stderr)
        return 2

    if opts.replay:
        record = json.load(open(opts.replay, encoding="utf-8"))
        part = next(p for p in module.PARTS if p.name == record["part"])
        message, _ = run_case(part, record["spec"])
        if message is None:
            print("replay: the property holds on this case")
            return 0
        print(message)
        print(f"VIOLATION property={prop} replay={opts.replay}")
        return 1

    # known findings: each is replayed; it silences nothing but itself
    for item in load_known(prop):
        part = next(p for p in module.PARTS if p.name == item["part"])
        message, _ = run_case(part, item["spec"])
        if message is not None:
            print(f"KNOWN-FINDING: property={prop} {item['what']}")
        else:
            print(f"note: listed finding no longer fails: {item['what']}")

    tasks = []
    for part in module.PARTS:
        if opts.part and part.name != opts.part:
            continue
        total = int((part.quick if tier == "quick" else part.thorough) * opts.scale)
        workers = part.workers or max(1, min(opts.jobs, total // 20))
        if tier == "thorough" and not part.workers:
            workers = max(workers, min(4 * opts.jobs, total // 200))
        base, rest = divmod(total, workers)
        for w in range(workers):
            tasks.append((module_name, part.name, w, base + (1 if w < rest else 0), seed, None))

    ctx = multiprocessing.get_context("fork")
    if opts.jobs == 1:
        results = [_job(t) for t in tasks]
    else:
        with ctx.Pool(processes=opts.jobs, maxtasksperchild=1) as pool:
            results = pool.map(_job, tasks, chunksize=1)

    evaluations = sum(r["evaluations"] for r in results)
    keys = set()
    labels: dict[str, int] = {}
    per_part: dict[str, dict[str, int]] = {}
    samples = []
    violations = []
    errors = []
    for r in results:
        keys.update(r["keys"])
        for k, v in r["labels"].items():
            labels[f"{r['part']}: {k}"] = labels.get(f"{r['part']}: {k}", 0) + v
        p = per_part.setdefault(r["part"], {"evaluations": 0, "nontrivial": 0})
        p["evaluations"] += r["evaluations"]
        p["nontrivial"] += len(r["keys"])
        if r["worker"] < 1:
            samples.extend(r["samples"][:3])
        if r["failure"]:
            violations.append((r["part"], *r["failure"]))
        elif r["error"]:
            errors.append((r["part"], r["error"]))

    # one violation per part, the smallest case
    best: dict[str, tuple] = {}
    for part_name, spec, message in violations:
        size = len(canonical(spec))
        if part_name not in best or size < best[part_name][0]:
            best[part_name] = (size, spec, message)

    wall = time.time() - start
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(keys),
            "rule": module.RULE,
            "samples": samples[:12] or [{"note": "no case completed"}],
            "parts": per_part,
            "classification": dict(sorted(labels.items())),
        },
        "wall_s": round(wall, 2),
        "violations": len(best),
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)

    print(f"{prop} {tier}: {evaluations} cases, {len(keys)} distinct non-trivial, {wall:.1f} s")
    for name, p in per_part.items():
        print(f"  {name}: {p['evaluations']} cases, {p['nontrivial']} non-trivial")

    if best:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for part_name, (_, spec, message) in sorted(best.items()):
            name = hashlib.sha256(canonical([part_name, spec]).encode()).hexdigest()[:12]
            path = os.path.join("replays", f"{prop}-{part_name}-{name}.json")
            with open(os.path.join(VERIF, path), "w", encoding="utf-8") as f:
                json.dump(
                    {"property": prop, "part": part_name, "spec": spec, "message": message},
                    f,
                    indent=1,
                    ensure_ascii=True,
                    default=repr,
                )
            print(f"--- {part_name}")
            print(message[-3000:])
            print(f"VIOLATION property={prop} replay={path}")
        return 1

    for part_name, text in errors:
        print(f"ERROR in {part_name}:\n{text}", file=sys.stderr)
    return 2 if errors else 0
