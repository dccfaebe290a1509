"""
Confirms planted bugs: each applies, changes lines of the original repository only, passes the tests, is shown by its
demonstration, and is (or is not) caught by the check of its property.

usage: seed.py [ID...] [--no-check]      (applies each patch to /repo or a copy, and undoes it straight afterwards)
"""

import json
import os
import pathlib
import re
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")  # may be a copy
ROOT = pathlib.Path(__file__).resolve().parent.parent
FIRST = None


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def original_lines(patch):
    "Lines that the patch removes but that the first commit did not have."
    root = sh(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"]).stdout.split()[0]
    path, lineno, bad = None, 0, []
    blame = {}
    for line in patch.splitlines():
        if line.startswith("--- "):
            path = line[6:]
            if path not in blame:
                out = sh(["git", "-C", REPO, "blame", "-l", "-s", "--root", "HEAD", "--", path]).stdout
                blame[path] = [x.split()[0] for x in out.splitlines()]
        elif line.startswith("+++ "):
            pass
        elif line.startswith("@@"):
            lineno = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-"):
            if blame[path][lineno - 1] != root:
                bad.append(f"{path}:{lineno}")
            lineno += 1
        elif line.startswith("+"):
            pass
        else:
            lineno += 1
    return bad


def demo(folder):
    r = sh(["bash", str(folder / "demo.sh")], cwd=REPO, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]


TESTS = """cd {repo}
export TEST_INTEGRATION=0 TEST_POSTGRESQL=1 TEST_MYSQL=1 TEST_ORACLE=1 TEST_MSSQL=1
export PYTHONPATH={repo} PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/opt/vp/no-pycache
/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 tests 2>&1 | grep passed"""


def run_tests():
    if REPO == "/repo":
        sh("bash /opt/vp/build.sh")
        out = sh("bash /opt/vp/test.sh /tmp/seed.json").stdout.strip().splitlines()
        return bool(out) and "112 passed, 0 failed" in out[-1], out[-1:]
    out = sh(TESTS.format(repo=REPO)).stdout.strip()
    return "112 passed" in out and "failed" not in out, out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--no-check" not in sys.argv
    folders = sorted(p for p in (ROOT / "seeded").iterdir() if p.is_dir() and (not args or p.name in args))
    assert not sh(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip(), "/repo is not clean"
    for folder in folders:
        meta = json.loads((folder / "meta.json").read_text())
        patch = folder / "patch.diff"
        problems = []
        bad = original_lines(patch.read_text())
        if bad:
            problems.append(f"lines not in the original: {bad}")
        rc, out = demo(folder)
        if rc != 0:
            problems.append(f"demo fails on the unchanged tree: {out}")
        r = sh(["git", "-C", REPO, "apply", str(patch)])
        if r.returncode:
            print(folder.name, "DOES NOT APPLY", r.stderr)
            continue
        try:
            passed, out = run_tests()
            if not passed:
                problems.append(f"tests: {out}")
            rc, out = demo(folder)
            if rc == 0:
                problems.append("demo does not fail with the change")
            verdict = ""
            if check:
                c = sh(["./run", meta["property"]], cwd=ROOT, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
                caught = f"VIOLATION property={meta['property']}" in c.stdout and c.returncode == 1
                verdict = "caught" if caught else f"MISSED (exit {c.returncode})"
        finally:
            sh(["git", "-C", REPO, "checkout", "--", "."])
        print(folder.name, meta["property"], verdict, "; ".join(problems) or "ok", flush=True)
    if REPO == "/repo":
        sh("bash /opt/vp/build.sh")


main()
