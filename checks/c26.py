"""
C26: driver failures surface with the failing query; sources are consumed once.

An operation is first performed without failure to learn what is sent; then it is repeated with the driver failing at one
of these calls. The caller must get a query error with that statement and that cause, and nothing further may be sent.
"""

from hypothesis import strategies as st

import data as D
import history as H
import schema as S
from drivers import DRIVER_DIALECTS, SCRIPT_DIALECTS, Backend, DriverFailure, make_context, run_async
from vh import Part, Result, Violation, check, check_equal

import pysqlsync.base as base

PROPERTY = "C26"
RULE = "the driver failed after at least one successful call of the same history, or an empty statement or list was given"
ASSUMPTIONS = [
    "the driver reports failure by raising an exception (of any class derived from Exception)",
    "a query error carries the failing statement if its text has the statement (a script, if it is sent in one piece)",
]

FAILURES = {
    "driver": lambda: DriverFailure("injected"),
    "value": lambda: ValueError("injected"),
    "key": lambda: KeyError("injected"),
    "runtime": lambda: RuntimeError("injected"),
    "os": lambda: ConnectionResetError("injected"),
    "timeout": lambda: TimeoutError("injected"),
    "stop": lambda: AttributeError("injected"),
    "empty": lambda: Exception(),
    "chained": lambda: chained(DriverFailure("injected"), OSError("beneath")),
    "chained-runtime": lambda: chained(RuntimeError("injected"), DriverFailure("beneath")),
}


def chained(error, cause):
    "An error that the driver raises for another one."
    error.__cause__ = cause
    return error


def squash(text):
    return " ".join(text.split()).rstrip("; ")


def check_failure(e, store, what):
    "Examines the exception that an operation has ended with."
    from pysqlsync.base import QueryException

    event = store.log[store.fail_at]
    check(e is not None, lambda: f"{what}: failure of the driver at {event[:2]} has been swallowed")
    check(isinstance(e, QueryException), lambda: f"{what}: failure of the driver at {event[:2]} surfaces as {e!r}")
    same = e.__cause__ is store.raised or isinstance(store.raised, TimeoutError) and type(e.__cause__) is TimeoutError  # copied by asyncio
    check(same, lambda: f"{what}: query error has cause {e.__cause__!r}, not the driver's error {store.raised!r}")
    if event[0] == "copy":
        (schema, table), columns = event[1], event[2]
        for name in (table, *columns, *([schema] if schema else [])):
            check(f'"{name}"' in e.query, lambda: f"{what}: query {e.query!r} does not mention {name}")
    else:
        check(squash(event[1]) in squash(e.query), lambda: f"{what}: query error has statement {e.query!r}, but the driver failed at {event[1]!r}")
    check(squash(e.query)[:200] in squash(str(e)), lambda: f"{what}: message {e} lacks the query {e.query}")
    check_equal(len(store.log), store.fail_at + 1, f"{what}: number of calls made, where call {store.fail_at} failed")


def attempt(fn):
    from pysqlsync.base import QueryException

    try:
        fn()
    except QueryException as e:
        return e
    except Violation:
        raise
    except Exception as e:
        return e
    return None


# histories of data manipulation


@st.composite
def cases(draw):
    c = draw(H.histories(DRIVER_DIALECTS, max_ops=3))
    c["fail"] = draw(st.integers(0, 1000))
    c["failure"] = draw(st.sampled_from(sorted(FAILURES)))
    return c


def run(case):
    opts, spec = case["opts"], case["spec"]
    fields = D.fields_of(spec)
    with S.Build(spec) as b:
        ld = D.Loader(spec, opts, b)
        model = {}
        for op in case["ops"]:
            H.apply(ld, fields, model, op)
        n = len(ld.store.log) - ld.start
        kinds = [e[0] for e in ld.store.log[ld.start :]]
    if not n:
        return Result(False, ["nothing sent"])
    fail = case["fail"] % n
    with S.Build(spec) as b:
        ld = D.Loader(spec, opts, b)
        ld.store.fail_at = ld.start + fail
        ld.store.failure = FAILURES[case["failure"]]
        model = {}
        for i, op in enumerate(case["ops"]):
            before = len(ld.store.log)
            e = attempt(lambda: H.apply(ld, fields, model, op))
            what = f"operation {i} ({op['op']} of {'objects' if op['objects'] else 'rows'})"
            if ld.store.raised is None:
                if e is not None:
                    raise e
                continue
            check(before <= ld.store.fail_at, "driver failed in an earlier operation")
            check_failure(e, ld.store, what)
            return Result(fail > 0, [opts["dialect"], kinds[fail], op["op"] + (" objects" if op["objects"] else " rows")])
    check(False, f"{n} calls made without failure, but only {len(ld.store.log) - ld.start} with call {fail} to fail")


# scripts, bulk statements and queries


@st.composite
def statements(draw):
    dialect = draw(st.sampled_from(SCRIPT_DIALECTS))
    kind = draw(st.sampled_from(["execute", "all", "query", "one", "script", "schema"]))
    names = st.sampled_from(["a", "table", "x;y", "O'Reilly", "ä"])
    c = {"dialect": dialect, "kind": kind, "failure": draw(st.sampled_from(sorted(FAILURES))), "fail": draw(st.integers(0, 50))}
    if kind == "schema":
        c["opts"] = draw(S.options((dialect,)))
        c["spec"] = draw(S.schemas(c["opts"], max_modules=2))
    else:
        c["names"] = draw(st.lists(names, min_size=1, max_size=4))
        c["rows"] = draw(st.integers(1, 6))
        c["batch"] = draw(st.sampled_from([1, 2, 100]))
        c["source"] = draw(st.sampled_from(D.SOURCES))
    return c


class Answers(Backend):
    def on_query(self, sql):
        return [(("a", "b"), (1, "x"))]


def quoted(name, dialect):
    return f"`{name}`" if dialect == "mysql" else '"' + name + '"'


def perform(case, store):
    "Performs the operation; returns the source of records, if any."
    dialect, kind = case["dialect"], case["kind"]
    if kind == "schema":
        with S.Build(case["spec"]) as b:
            ctx = make_context(dialect, store, S.make_options(case["opts"], b))
            run_async(ctx.create_objects(b.entities))
            run_async(ctx.drop_objects())
        return None
    ctx = make_context(dialect, store)
    names = [quoted(n, dialect) for n in case["names"]]
    if kind == "execute":
        for n in names:
            run_async(ctx.execute(f"DROP TABLE {n};"))
    elif kind == "script":
        run_async(ctx.execute("\n".join(f"DROP TABLE {n};" for n in names)))
    elif kind == "all":
        mark = ctx.connection.generator.placeholder(1)
        source = D.Source(case["source"], [(i,) for i in range(case["rows"])])
        run_async(ctx.execute_all(f"DELETE FROM {names[0]} WHERE {names[0]} = {mark};", source.get()))
        return source
    elif kind == "query":
        for n in names:
            run_async(ctx.query_all(tuple[int, str], f"SELECT a, b FROM {n};"))
    else:
        for n in names:
            run_async(ctx.query_one(tuple[int, str], f"SELECT a, b FROM {n}"))
    return None


def run_statement(case):
    size = base.BATCH_SIZE
    base.BATCH_SIZE = case.get("batch", size)
    try:
        store = Answers()
        perform(case, store)
        n = len(store.log)
        if not n:
            return Result(False, ["nothing sent"])
        fail = case["fail"] % n
        log = [e[:2] for e in store.log]
        store = Answers()
        store.fail_at = fail
        store.failure = FAILURES[case["failure"]]
        e = attempt(lambda: perform(case, store))
        check(store.raised is not None, f"call {fail} of {n} has not been made")
        check_equal([x[:2] for x in store.log[: fail + 1]], log[: fail + 1], "calls up to the failure")
        check_failure(e, store, case["kind"])
    finally:
        base.BATCH_SIZE = size
    return Result(fail > 0, [case["dialect"], case["kind"]])


# empty statements and lists


@st.composite
def empties(draw):
    o = draw(S.options(DRIVER_DIALECTS, auto_default=False))
    blank = st.text(st.sampled_from(" \t\r\n\v\f\u00a0\u2003"), max_size=4)
    return {"opts": o, "spec": draw(D.tables(o)), "statement": draw(blank), "op": draw(st.sampled_from(["execute", "execute_all", "statement_all", "insert_rows", "upsert_rows", "delete_rows", "insert_data", "upsert_data", "delete_data"])), "as": draw(st.sampled_from(["list", "tuple"])), "rows": draw(st.integers(0, 2))}


def run_empty(case):
    opts, spec = case["opts"], case["spec"]
    op = case["op"]
    none = {"list": list, "tuple": tuple}[case["as"]]()
    with S.Build(spec) as b:
        ld = D.Loader(spec, opts, b)
        ctx = ld.context
        fields = D.fields_of(spec)
        types = tuple(D.row_type(b, f["type"]) for f in fields)
        if op in ("execute", "execute_all"):
            call = ctx.execute(case["statement"]) if op == "execute" else ctx.execute_all(case["statement"], [(i,) for i in range(case["rows"])])
            try:
                run_async(call)
            except ValueError:
                pass
            else:
                check(False, f"{op} has accepted statement {case['statement']!r}")
        elif op == "statement_all":
            run_async(ctx.execute_all(f"DELETE FROM {ld.table().name}", none))
        elif op == "delete_rows":
            run_async(ctx.delete_rows(ld.table(), D.ROW_TYPES[D.key_field(fields)["type"][0]], none))
        elif op == "delete_data":
            run_async(ctx.delete_data(ld.main, none))
        elif op in ("insert_data", "upsert_data"):
            run_async(getattr(ctx, op)(ld.main, none))
        else:
            run_async(getattr(ctx, op)(ld.table(), none, field_types=types, field_names=tuple(f["name"] for f in fields)))
        check_equal(ld.store.log[ld.start :], [], f"calls of the driver for {op} of nothing")
    return Result(True, [opts["dialect"], op])


PARTS = [
    Part("histories", cases, run, quick=900, thorough=20000),
    Part("statements", statements, run_statement, quick=500, thorough=10000),
    Part("empty", empties, run_empty, quick=250, thorough=4000),
]
