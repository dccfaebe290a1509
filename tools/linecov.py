"""
Which lines of pysqlsync each part of each check executes, and in how many of the cases.

usage: linecov.py OUT.json CASES [CNN...]
"""

import ast
import collections
import importlib
import json
import multiprocessing
import os
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(ROOT), str(ROOT / "lib")]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
import vh  # noqa

PREFIX = REPO + "/pysqlsync/"


def cover(args):
    name, part_name, cases = args
    mon = sys.monitoring
    hits = collections.Counter()
    seen = set()
    module = importlib.import_module("checks." + name.lower())
    part = next(p for p in module.PARTS if p.name == part_name)

    def on_line(code, line):
        if code.co_filename.startswith(PREFIX):
            seen.add((code.co_filename, line))
        else:
            return mon.DISABLE  # note: lines of interest are not disabled, since restarting events is unreliable in 3.12

    mon.use_tool_id(4, "linecov")
    mon.register_callback(4, mon.events.LINE, on_line)
    mon.set_events(4, mon.events.LINE)
    original = part.run
    done = [0]
    if not part.quick:
        cases = 0

    def run(spec):
        seen.clear()
        done[0] += 1
        try:
            return original(spec)
        finally:
            for filename, line in seen:
                hits[filename[len(REPO) + 1 :] + ":" + str(line)] += 1

    part.run = run
    out = {}
    try:
        vh._job_inner("checks." + name.lower(), part_name, 0, cases, 1, {"evaluations": 0, "samples": []} | out)
    finally:
        mon.set_events(4, 0)
    return name + "/" + part_name, done[0], dict(hits)


if __name__ == "__main__":
    target, cases, names = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    names = names or [p.stem.upper() for p in sorted((ROOT / "checks").glob("c[0-9]*.py"))]
    tasks = []
    for n in names:
        for p in importlib.import_module("checks." + n.lower()).PARTS:
            tasks.append((n, p.name, cases))
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        result = {k: [n, h] for k, n, h in pool.map(cover, tasks, chunksize=1)}
    json.dump(result, open(target, "w"))
    covered = collections.Counter()
    for n, h in result.values():
        covered.update(h.keys())
    for path in sorted(pathlib.Path(REPO, "pysqlsync").rglob("*.py")):
        rel = str(path.relative_to(REPO))
        lines = set()  # statements in functions
        for fn in ast.walk(ast.parse(path.read_text())):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(getattr(d, "attr", getattr(d, "id", "")) in ("abstractmethod", "overload") for d in fn.decorator_list):
                    continue
                for node in ast.walk(fn):
                    if node is fn or not isinstance(node, ast.stmt) or isinstance(node, (ast.Try, ast.Global)):
                        continue
                    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                        continue
                    lines.add(node.lineno)
        missing = sorted(l for l in lines if f"{rel}:{l}" not in covered)
        if missing:
            print(rel, len(missing), "of", len(lines), "not executed:", *missing)
