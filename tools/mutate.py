"""
Mutation analysis: which small changes of pysqlsync that pass its tests are not reported by any check.

usage: mutate.py list OUT.json [FILE...]              enumerate mutants (files relative to the repository)
       mutate.py tests MUTANTS.json OUT.json [N SEED]  keep (a sample of N of) those that pass the tests
       mutate.py checks MUTANTS.json COV.json OUT.json [SCALE [CAP]]   run the parts that execute the line
       mutate.py show RESULTS.json                     print the survivors

Copies of the repository are made in /tmp/mut/wN; COV.json is the output of linecov.py.
"""

import ast
import importlib
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import threading
import queue

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = pathlib.Path("/tmp/mut")
PY = "/opt/venv/bin/python"
WORKERS = int(os.environ.get("MUTATE_WORKERS", "7"))

COMPARE = {
    ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in",
    ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Pow: "*", ast.BitOr: "&", ast.BitAnd: "|"}


class Finder(ast.NodeVisitor):
    def __init__(self, source):
        self.source = source
        self.lines = [len(l) for l in source.encode().splitlines(keepends=True)]
        self.data = source.encode()
        self.out = []
        self.depth = 0
        self.fstring = 0
        self.stmt = None

    def off(self, line, col):
        return sum(self.lines[: line - 1]) + col

    def seg(self, node):
        a, b = self.off(node.lineno, node.col_offset), self.off(node.end_lineno, node.end_col_offset)
        return a, b, self.data[a:b].decode()

    def put(self, node, text, what, a=None, b=None):
        if a is None:
            a, b, _ = self.seg(node)
        if self.fstring and ("\n" in text):
            return
        self.out.append({"line": node.lineno, "stmt": self.stmt, "a": a, "b": b, "text": text, "what": what, "old": self.data[a:b].decode()})

    def visit(self, node):
        is_stmt = isinstance(node, ast.stmt)
        if is_stmt:
            saved, self.stmt = self.stmt, node.lineno
        super().visit(node)
        if is_stmt:
            self.stmt = saved

    def visit_FunctionDef(self, node):
        if any(getattr(d, "attr", getattr(d, "id", "")) in ("abstractmethod", "overload") for d in node.decorator_list):
            return
        if node.name in ("__repr__",):
            return
        self.depth += 1
        for s in node.body:
            self.visit(s)
        for d in list(node.args.defaults) + [d for d in node.args.kw_defaults if d is not None]:
            self.visit(d)
        self.depth -= 1

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, node):
        if node.value is not None:
            self.visit(node.value)

    def visit_JoinedStr(self, node):
        self.fstring += 1
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                self.visit(v.value)
        self.fstring -= 1

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            _, _, left = self.seg(node.left)
            _, _, right = self.seg(node.comparators[0])
            op = COMPARE.get(type(node.ops[0]))
            if op:
                self.put(node, f"({left}) {op} ({right})", "compare")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        parts = [self.seg(v)[2] for v in node.values]
        op = " or " if isinstance(node.op, ast.And) else " and "
        self.put(node, "(" + op.join(f"({p})" for p in parts) + ")", "and/or")
        word = " and " if isinstance(node.op, ast.And) else " or "
        for i in range(len(parts)):
            rest = parts[:i] + parts[i + 1 :]
            self.put(node, "(" + word.join(f"({p})" for p in rest) + ")", f"drop operand {i}")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        op = BIN.get(type(node.op))
        if op and not isinstance(node.left, (ast.JoinedStr,)) and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            l, r = self.seg(node.left)[2], self.seg(node.right)[2]
            self.put(node, f"({l}) {op} ({r})", "arithmetic")
            if isinstance(node.op, ast.Add):
                self.put(node, f"({l})", "drop right")
                self.put(node, f"({r})", "drop left")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.put(node, f"bool({self.seg(node.operand)[2]})", "drop not")
        self.generic_visit(node)

    def visit_If(self, node):
        if isinstance(node.test, ast.Name) and node.test.id == "TYPE_CHECKING":
            return
        if not isinstance(node.test, (ast.Compare, ast.UnaryOp)):
            self.put(node.test, f"not ({self.seg(node.test)[2]})", "negate if")
        self.put(node.test, "False", "if False")
        self.put(node.test, "True", "if True")
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.put(node, f"({self.seg(node.body)[2]})", "ifexp then")
        self.put(node, f"({self.seg(node.orelse)[2]})", "ifexp else")
        self.generic_visit(node)

    def visit_comprehension(self, node):
        for c in node.ifs:
            self.put(c, "True", "comprehension filter True")
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if v is True or v is False:
            self.put(node, str(not v), "bool")
        elif isinstance(v, int):
            self.put(node, str(v + 1), "int+1")
        elif isinstance(v, str) and self.depth and not self.fstring:
            if v:
                self.put(node, '""', "empty string")
        elif v is None:
            pass

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        if isinstance(node.value, ast.Call) and isinstance(node.value.func, ast.Attribute) and node.value.func.attr in ("debug", "info", "warning", "error"):
            return  # logging
        self.put(node, "pass", "delete statement")
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.put(node, "pass", "delete statement")
        self.generic_visit(node)

    def visit_Raise(self, node):
        self.put(node, "pass", "delete raise")

    def visit_Continue(self, node):
        self.put(node, "pass", "delete continue")

    def visit_Break(self, node):
        self.put(node, "pass", "delete break")

    def visit_Return(self, node):
        if node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            self.put(node, "return None", "return None")
        self.generic_visit(node)

    def visit_Assign(self, node):
        if self.depth and len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute):
            self.put(node.value, "None", "assign None")
        self.generic_visit(node)

    def visit_Call(self, node):
        for kw in node.keywords:
            if kw.arg:
                a, b = self.off(kw.lineno, kw.col_offset), self.off(kw.end_lineno, kw.end_col_offset)
                end = self.data[b:]
                k = 0
                while end[k : k + 1] in (b",", b" ", b"\n"):
                    k += 1
                    if end[k - 1 : k] == b",":
                        break
                self.put(node, "", f"drop keyword {kw.arg}", a, b + (k if end[k - 1 : k] == b"," else 0))
        if isinstance(node.func, ast.Name) and node.func.id in ("sorted", "reversed") and len(node.args) == 1:
            self.put(node, f"list({self.seg(node.args[0])[2]})", "unsorted")
        self.generic_visit(node)

    def visit_Subscript(self, node):
        if isinstance(node.slice, ast.Slice):
            self.put(node, self.seg(node.value)[2], "no slice")
        self.generic_visit(node)


def mutants(files):
    out = []
    for rel in files:
        path = pathlib.Path(REPO, rel)
        source = path.read_text()
        f = Finder(source)
        f.visit(ast.parse(source))
        seen = set()
        for m in f.out:
            data = source.encode()
            new = (data[: m["a"]] + m["text"].encode() + data[m["b"] :]).decode()
            if new in seen or new == source:
                continue
            seen.add(new)
            try:
                compile(new, rel, "exec")
            except SyntaxError:
                continue
            out.append(m | {"file": rel})
    return out


def apply(m, copy):
    path = pathlib.Path(copy, m["file"])
    data = pathlib.Path(REPO, m["file"]).read_bytes()
    path.write_bytes(data[: m["a"]] + m["text"].encode() + data[m["b"] :])


def undo(m, copy):
    pathlib.Path(copy, m["file"]).write_bytes(pathlib.Path(REPO, m["file"]).read_bytes())


def prepare(n):
    copies = []
    for i in range(n):
        c = WORK / f"w{i}"
        if c.exists():
            shutil.rmtree(c)
        shutil.copytree(REPO, c, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        copies.append(c)
    return copies


def pool(items, work):
    copies = prepare(WORKERS)
    q = queue.Queue()
    for x in enumerate(items):
        q.put(x)
    out = [None] * len(items)
    done = [0]

    def loop(copy):
        while True:
            try:
                i, m = q.get_nowait()
            except queue.Empty:
                return
            apply(m, copy)
            try:
                out[i] = work(m, copy)
            finally:
                undo(m, copy)
            done[0] += 1
            if done[0] % 50 == 0:
                print(done[0], "of", len(items), flush=True)

    threads = [threading.Thread(target=loop, args=(c,)) for c in copies]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return out


def run_tests(m, copy):
    env = os.environ | {
        "TEST_INTEGRATION": "0", "TEST_POSTGRESQL": "1", "TEST_MYSQL": "1", "TEST_ORACLE": "1", "TEST_MSSQL": "1",
        "PYTHONPATH": str(copy), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/opt/vp/no-pycache", "PYTHONHASHSEED": "0",
    }
    try:
        r = subprocess.run(
            [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "tests"],
            cwd=copy, env=env, capture_output=True, text=True, timeout=180,
        )
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0 and "112 passed" in r.stdout


def parts_for(m, cov, scale, cap):
    chosen = []
    for key, (n, hits) in cov.items():
        h = max(hits.get(f"{m['file']}:{m['line']}", 0), hits.get(f"{m['file']}:{m['stmt']}", 0))
        if h and n:
            chosen.append((h / n, key))
    chosen.sort(reverse=True)
    return [(k, f) for f, k in chosen]


def run_checks(cov, scale, cap):
    def work(m, copy):
        parts = parts_for(m, cov, scale, cap)
        if not parts:
            return {"killed": None, "ran": []}
        env = os.environ | {
            "VERIF_REPO": str(copy), "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPYCACHEPREFIX": "/opt/vp/no-pycache", "HYPOTHESIS_STORAGE_DIRECTORY": "/tmp/.hypothesis-unused",
        }
        try:
            r = subprocess.run(
                [PY, __file__, "battery", json.dumps(parts), str(scale), str(cap)],
                cwd=ROOT, env=env, capture_output=True, text=True, timeout=3000,
            )
        except subprocess.TimeoutExpired:
            return {"killed": "timeout", "ran": []}
        lines = r.stdout.strip().splitlines()
        try:
            return json.loads(lines[-1])
        except Exception:
            return {"killed": "crash", "ran": [], "error": (r.stdout + r.stderr)[-500:]}

    return work


def battery(parts, scale, cap):
    sys.path[:0] = [str(ROOT), str(ROOT / "lib")]
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.path.insert(0, os.environ["VERIF_REPO"])
    import signal
    import vh

    ran = []
    for key, fraction in parts:
        name, part_name = key.split("/", 1)
        try:
            module = importlib.import_module("checks." + name.lower())
        except Exception as e:
            print(json.dumps({"killed": name + " import", "ran": ran, "message": repr(e)[:300]}))
            return
        part = next(p for p in module.PARTS if p.name == part_name)
        count = int(part.quick * scale)
        if cap:
            count = min(count, max(30, int(cap / fraction)))
        if part.quick == 0:
            count = 0
        log = f"/tmp/mut/out.{os.getpid()}"
        pid = os.fork()
        if pid == 0:
            signal.alarm(0)
            import resource
            out = {"evaluations": 0, "samples": [], "failure": None, "error": None}

            def job():
                import hypothesis
                original = hypothesis.settings
                # the first failure is enough: no shrinking
                hypothesis.settings = lambda **kw: original(**{**kw, "phases": (hypothesis.Phase.generate,)})
                vh._job_inner("checks." + name.lower(), part_name, 0, count, 1, out)

            try:
                job()
                res = (str(out["failure"][1])[:400] if out.get("failure") else None, None)
            except BaseException as e:
                res = (None, repr(e)[:400])
            with open(log, "w") as f:
                json.dump(res, f)
            os._exit(0)
        import time
        limit = time.time() + 240
        killed = None
        while True:
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() > limit:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                killed = "slow"
                break
            time.sleep(0.05)
        if killed:
            ran.append([key, count, "slow"])
            continue
        try:
            failure, error = json.load(open(log))
            os.unlink(log)
        except Exception:
            failure, error = None, "no result"
        ran.append([key, count, error])
        if failure or error:
            print(json.dumps({"killed": key, "ran": ran, "message": failure or error}))
            return
    print(json.dumps({"killed": None, "ran": ran}))


def show(results):
    for m in results:
        if m["result"]["killed"] is None:
            print(f"{m['file']}:{m['line']}: {m['what']}: {m['old'][:90]!r} -> {m['text'][:90]!r}  [{len(m['result']['ran'])} parts]")


if __name__ == "__main__":
    WORK.mkdir(exist_ok=True)
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "list":
        files = args[1:] or sorted(str(p.relative_to(REPO)) for p in pathlib.Path(REPO, "pysqlsync").rglob("*.py"))
        found = mutants(files)
        json.dump(found, open(args[0], "w"))
        print(len(found))
    elif cmd == "tests":
        items = json.load(open(args[0]))
        if len(args) > 2:
            rnd = random.Random(int(args[3]) if len(args) > 3 else 1)
            rnd.shuffle(items)
            items = items[: int(args[2])]
        ok = pool(items, run_tests)
        kept = [m for m, good in zip(items, ok) if good]
        json.dump(kept, open(args[1], "w"))
        print(len(kept), "of", len(items), "pass the tests")
    elif cmd == "checks":
        items = json.load(open(args[0]))
        cov = json.load(open(args[1]))
        scale = float(args[3]) if len(args) > 3 else 0.3
        cap = int(args[4]) if len(args) > 4 else 100
        res = pool(items, run_checks(cov, scale, cap))
        results = [m | {"result": r} for m, r in zip(items, res)]
        json.dump(results, open(args[2], "w"))
        print(sum(r["result"]["killed"] is not None for r in results), "of", len(results), "reported")
        show(results)
    elif cmd == "show":
        show(json.load(open(args[0])))
    elif cmd == "battery":
        battery(json.loads(args[0]), float(args[1]), int(args[2]))
