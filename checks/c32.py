"""
C32: completed work is durable, connections are released, and sessions are independent.

Histories of operations run in sessions (`async with connection as context`), one after another or at the same time, on
the real connection classes with drivers that have transactions: what is not committed is lost when the connection is
closed. Statements, batches and bodies of sessions fail at random points.
"""

import asyncio
import re
import threading
import time

from hypothesis import strategies as st

import aiomysql
import aiotrino
import asyncpg
import drivers
import oracledb
import pyodbc
import redshift_connector
import schema as S
from collections import namedtuple
from pysqlsync.connection import ConnectionParameters
from pysqlsync.factory import get_dialect
from vh import Part, Result, check, check_equal

PROPERTY = "C32"
RULE = "at least one session executes a statement or stores a record and another session, a failure or a second operation follows; in part generators, at least two generators have created something"
ASSUMPTIONS = [
    "asyncpg commits each statement outside of a transaction block; aiomysql, oracledb, redshift_connector and pyodbc start with automatic commit "
    "switched off unless told otherwise; a pyodbc cursor used as a context manager commits when it is left without an error; "
    "closing a connection rolls back what has not been committed",
    "drivers without asynchronous functions (pyodbc, oracledb, redshift_connector) block the thread that calls them",
]

DIALECTS = ("postgresql", "mysql", "mssql", "oracle", "redshift")
BLOCKING = ("mssql", "oracle", "redshift")

SPEC = {
    "modules": [
        {
            "ns": "base",
            "enums": [],
            "structs": [],
            "entities": [
                {
                    "name": "Person",
                    "doc": None,
                    "fields": [
                        {"name": "id", "type": ["int"], "role": "pk"},
                        {"name": "name", "type": ["max", 20]},
                    ],
                }
            ],
        }
    ]
}


class Server:
    "What all sessions share: the work that has been committed."

    def __init__(self, dialect):
        self.dialect = dialect
        self.committed = []
        self.sessions = []


class Session(drivers.Backend):
    "The state of one connection."

    def __init__(self, server, autocommit, steps):
        super().__init__()
        self.server = server
        self.number = len(server.sessions)
        server.sessions.append(self)
        self.autocommit = autocommit
        self.pending = []
        self.closed = 0
        self.steps = steps  # number of times that the driver gives way to others
        self.settings = []
        self.used_late = False

    def _event(self, event):
        if self.closed:
            self.used_late = True
            raise drivers.DriverFailure("connection is closed")
        if event[0] == "execute" and re.match(r"\s*(ALTER SESSION|SET )", event[1]):
            self.settings.append(event[1])
            return
        super()._event(event)
        if event[0] != "query":
            self.pending.append((self.number, event))
            if self.autocommit:
                self.commit()

    def commit(self):
        self.server.committed.extend(self.pending)
        self.pending.clear()

    def close(self):
        self.closed += 1
        self.pending.clear()

    def give_way(self):
        return self.steps.pop() if self.steps else 0


class Native:
    "Mixed into the stand-ins of the drivers."

    def __init__(self, session):
        self.session = session
        autocommit = session.autocommit
        super().__init__(session)
        session.autocommit = autocommit

    @property
    def autocommit(self):
        return self.session.autocommit

    @autocommit.setter
    def autocommit(self, value):
        if value:
            self.session.commit()
        self.session.autocommit = bool(value)

    def commit(self):
        self.session.commit()

    def rollback(self):
        self.session.pending.clear()

    def close(self):
        self.session.close()


class Asynchronous(Native):
    async def close(self):
        await yielding(self.session)
        self.session.close()

    def get_server_version(self):
        return namedtuple("V", "major minor micro releaselevel")(16, 1, 0, "final")


async def yielding(session):
    for _ in range(session.give_way()):
        await asyncio.sleep(0)


class PG(Asynchronous, drivers.FakeAsyncpg):
    async def execute(self, query, *args):
        await yielding(self.session)
        return await super().execute(query, *args)

    async def executemany(self, command, args):
        await yielding(self.session)
        return await super().executemany(command, args)

    async def fetch(self, query):
        await yielding(self.session)
        return await super().fetch(query)

    async def copy_records_to_table(self, *args, **kwargs):
        await yielding(self.session)
        return await super().copy_records_to_table(*args, **kwargs)


class MySQLCursor(drivers.FakeAiomysqlCursor):
    async def execute(self, *args):
        await yielding(self.backend)
        return await super().execute(*args)

    async def executemany(self, *args):
        await yielding(self.backend)
        return await super().executemany(*args)


class MySQL(Native, drivers.FakeAiomysql):
    def cursor(self, *cursors):
        return drivers._CursorContext(MySQLCursor(self.session, any("Dict" in getattr(c, "__name__", "") for c in cursors)))

    async def commit(self):
        self.session.commit()

    async def rollback(self):
        self.session.pending.clear()

    async def ensure_closed(self):
        self.session.close()


class Pause:
    "Lets a blocking driver wait for something that only the event loop can do."

    def __init__(self):
        self.event = None
        self.late = False

    def __call__(self):
        if self.event is not None:
            if not self.event.wait(10):
                self.late = True


class Blocking(Native):
    cursor_class = None

    def cursor(self):
        session, pause = self.session, self.session.pause

        class Cursor(self.cursor_class):
            def __exit__(self, kind, value, trace):
                if isinstance(self, drivers.FakePyodbcCursor) and kind is None:
                    session.commit()

            def execute(self, *args, **kwargs):
                pause()
                return super().execute(*args, **kwargs)

            def executemany(self, *args, **kwargs):
                pause()
                return super().executemany(*args, **kwargs)

            def commit(self):
                session.commit()

        return Cursor(session)


class MSSQL(Blocking, drivers.FakePyodbc):
    cursor_class = drivers.FakePyodbcCursor


class Oracle(Blocking, drivers.FakeOracle):
    cursor_class = drivers.FakeOracleCursor


class Redshift(Blocking, drivers.FakeRedshift):
    cursor_class = drivers.FakeRedshiftCursor


NATIVE = {
    "postgresql": (asyncpg, PG, True),
    "mysql": (aiomysql, MySQL, False),
    "mssql": (pyodbc, MSSQL, False),
    "oracle": (oracledb, Oracle, False),
    "redshift": (redshift_connector, Redshift, False),
}


class Connecting:
    "Patches the function that connects."

    def __init__(self, server, steps, pause=None):
        self.server, self.steps, self.pause = server, steps, pause or Pause()
        self.module, cls, autocommit = NATIVE[server.dialect]
        self.arguments = []

        def make(args, kwargs):
            self.arguments.append((args, kwargs))
            session = Session(server, bool(kwargs.get("autocommit", autocommit)), list(self.steps))
            session.pause = self.pause
            return cls(session)

        if server.dialect in BLOCKING:

            def connect(*args, **kwargs):
                self.pause()
                return make(args, kwargs)

        else:

            async def connect(*args, **kwargs):
                return make(args, kwargs)

        self.connect = connect

    def __enter__(self):
        self.saved = self.module.connect
        self.module.connect = self.connect
        return self

    def __exit__(self, *args):
        self.module.connect = self.saved


class Stop(Exception):
    pass


class Interrupt(BaseException):
    pass


OPS = ["execute", "execute", "script", "execute_all", "insert_rows", "insert_data", "upsert_data", "delete_rows", "query", "query", "late"]


@st.composite
def session_cases(draw):
    op = st.fixed_dictionaries({"op": st.sampled_from(OPS), "n": st.integers(1, 4), "fail": st.sampled_from([False, False, False, True]), "caught": st.booleans()})
    one = st.fixed_dictionaries(
        {
            "ops": st.lists(op, min_size=0, max_size=4),
            "end": st.sampled_from([None, None, None, "stop", "interrupt"]),
            "steps": st.lists(st.integers(0, 3), max_size=12),
            "conn": st.integers(0, 1),
        }
    )
    return {
        "dialect": draw(st.sampled_from(DIALECTS)),
        "sessions": draw(st.lists(one, min_size=1, max_size=3)),
        "together": draw(st.booleans()),
    }


def script_of(dialect, number, i, n):
    return "\n".join(f'CREATE TABLE "s{number}_{i}_{k}" ("id" integer NOT NULL);' for k in range(n))


async def perform(dialect, ctx, cls, session, number, i, op):
    kind, n = op["op"], op["n"]
    if op["fail"]:
        session.fail_at, session.raised = len(session.log), None
    ids = [number * 1000 + i * 10 + k for k in range(n)]
    if kind in ("execute", "script"):
        await ctx.execute(script_of(dialect, number, i, n if kind == "script" else 1))
    elif kind == "execute_all":
        await ctx.execute_all(f"DELETE FROM {ctx.get_table(cls).name} WHERE 1 = {ctx.connection.generator.placeholder(1)}", [(x,) for x in ids])
    elif kind == "insert_rows":
        await ctx.insert_rows(ctx.get_table(cls), [(x, "n") for x in ids], field_types=(int, str), field_names=("id", "name"))
    elif kind == "insert_data":
        await ctx.insert_data(cls, [cls(id=x, name="n") for x in ids])
    elif kind == "upsert_data":
        await ctx.upsert_data(cls, [cls(id=x, name="n") for x in ids])
    elif kind == "delete_rows":
        await ctx.delete_rows(ctx.get_table(cls), int, ids)
    elif kind == "query":
        check_equal(await ctx.query_all(int, f"SELECT {ids[0]}"), [], "rows")


def run(case):
    dialect = case["dialect"]
    server = Server(dialect)
    engine = get_dialect(dialect)
    opts = {"dialect": dialect, "namespaces": {}}
    done = []
    work = [0]

    with S.Build(SPEC) as b:
        cls = b.cls(0, "Person")
        params = ConnectionParameters(host="localhost", port=1234, username="u", password="p", database="d")
        together = case["together"]
        conns = {}

        async def one(number, spec):
            # connections that are in use at the same time are different ones
            k = number if together else spec["conn"]
            if k not in conns:
                conns[k] = engine.create_connection(params, options(b))
            conn = conns[k]
            before = set(map(id, server.sessions))
            late = None
            end = {"stop": Stop("body"), "interrupt": Interrupt("body"), None: None}[spec["end"]]
            expected = end
            caught = None
            current["steps"] = spec["steps"]
            try:
                async with conn as ctx:
                    session = conn.native.session
                    check(id(session) not in before, "a session uses a connection that was opened earlier")
                    check(not session.closed, "the connection is closed while the session lasts")
                    check(ctx.connection is conn, "the context belongs to another connection")
                    ctx.connection.generator.reset()
                    ctx.connection.generator.create(tables=[cls])
                    for i, op in enumerate(spec["ops"]):
                        if op["op"] == "late":
                            late = ctx
                            continue
                        k0 = len(session.log)
                        failure = None
                        try:
                            await perform(dialect, ctx, cls, session, number, i, op)
                        except Exception as e:
                            if session.raised is None:
                                raise
                            failure = e
                        session.fail_at = None
                        check(not session.closed, "an operation closes the connection")
                        events = [e for e in session.log[k0:] if e[0] != "query"]
                        if op["fail"]:
                            if session.raised is not None:
                                check(failure is not None, f"operation {op} does not report the failure of the driver")
                                session.raised = None
                                if not op["caught"]:
                                    expected = failure
                                    raise failure
                        else:
                            mine = [e for s, e in server.committed if s == session.number]
                            for e in events:
                                check(any(e is m for m in mine), lambda: f"operation {op} has completed, but is not committed: {e}")
                            check(events or op["op"] == "query", f"operation {op} has done nothing")
                            work[0] += bool(events)
                    if end is not None:
                        raise end
            except (Stop, Interrupt) as e:
                caught = e
            except Exception as e:
                if e is not expected:
                    raise
                caught = e
            check(caught is expected, lambda: f"the body of the session raised {expected!r}, but the session {caught!r}")
            check_equal(session.closed, 1, "number of times that the connection was closed at the end of the session")
            if late is not None:
                # a session that is over does not silently do work elsewhere
                k0 = len(server.committed)
                log = [len(s.log) for s in server.sessions]
                try:
                    await late.execute('CREATE TABLE "late" ("id" integer);')
                except Exception:
                    pass
                else:
                    check(together or conn.native.session is not session, "a statement succeeds on a connection that is closed")
            done.append(session)

        current = {"steps": []}

        def options(b):
            return S.make_options(opts_of(dialect), b)

        class Steps(list):
            def __iter__(self):
                return iter(current["steps"])

        with Connecting(server, Steps()):

            async def main():
                if together:
                    results = await asyncio.gather(*(one(i, s) for i, s in enumerate(case["sessions"])), return_exceptions=True)
                    for r in results:
                        if isinstance(r, BaseException):
                            raise r
                else:
                    for i, s in enumerate(case["sessions"]):
                        await one(i, s)

            drivers.run_async(main())
        check_equal(len(server.sessions), len(case["sessions"]), "connections opened")
        # no session does the work of another
        for s in done:
            for e in s.log:
                names = set(re.findall(r'"s(\d)_', e[1])) if isinstance(e[1], str) else set()
                check(len(names) <= 1, "statements of several sessions in one")
        for s in server.sessions:
            check_equal(s.closed, 1, "number of times that a connection was closed")
    total = sum(len(s["ops"]) for s in case["sessions"])
    return Result(
        work[0] > 0 and total + len(case["sessions"]) > 2,
        [dialect, "together" if together and len(case["sessions"]) > 1 else "one by one", *{f"ends with {s['end']}" for s in case["sessions"]}],
    )


def opts_of(dialect):
    return {"dialect": dialect, "enum_mode": None, "struct_mode": None, "array_mode": None, "foreign_constraints": dialect != "redshift"}


# --------------------------------------------------------------------------------------------------------- responsive


@st.composite
def blocking_cases(draw):
    return {
        "dialect": draw(st.sampled_from(BLOCKING)),
        "op": draw(st.sampled_from([o for o in OPS if o != "late"] + ["open", "open"])),
        "n": draw(st.integers(1, 3)),
    }


def run_blocking(case):
    "While a driver blocks, other tasks go on."
    dialect = case["dialect"]
    server = Server(dialect)
    pause = Pause()
    with S.Build(SPEC) as b:
        cls = b.cls(0, "Person")
        conn = get_dialect(dialect).create_connection(ConnectionParameters(host="h", username="u", password="p"), S.make_options(opts_of(dialect), b))

        async def release():
            await asyncio.sleep(0)
            await asyncio.sleep(0.001)
            pause.event.set()

        async def main():
            if case["op"] == "open":
                pause.event = threading.Event()
                task = asyncio.ensure_future(release())
                async with conn:
                    pass
                await task
                return
            async with conn as ctx:
                ctx.connection.generator.create(tables=[cls])
                pause.event = threading.Event()
                task = asyncio.ensure_future(release())
                await perform(dialect, ctx, cls, conn.native.session, 0, 0, case | {"fail": False})
                await task

        with Connecting(server, [], pause):
            drivers.run_async(main())
        check(not pause.late, f"{dialect}: no other task makes progress while the driver executes {case['op']}")
    return Result(True, [dialect, case["op"]])


# ----------------------------------------------------------------------------------------------------------- settings


def run_settings(case):
    "Settings of a session that statements and values rely on, made before the first statement."
    dialect = case["dialect"]
    server = Server(dialect)
    with S.Build(SPEC) as b:
        conn = get_dialect(dialect).create_connection(ConnectionParameters(**case["params"]), S.make_options(opts_of(dialect), b))
        with Connecting(server, []) as c:

            async def main():
                async with conn as ctx:
                    await ctx.execute('CREATE TABLE "t" ("id" integer);')

            drivers.run_async(main())
        session = server.sessions[0]
        _, kwargs = c.arguments[0]
        if dialect == "mysql":
            text = "SET sql_mode = " + (kwargs.get("sql_mode") or "''") + "; " + (kwargs.get("init_command") or "") + "; " + "; ".join(session.settings)
            modes = re.findall(r"sql_mode\s*=\s*['\"]([^'\"]*)['\"]", text)
            modes = set(modes[-1].upper().split(",")) if modes else set()
            # identifiers are written in double quotes
            check(modes & {"ANSI_QUOTES", "ANSI"}, f"MySQL takes double quotes for string literals in SQL mode {modes}")
            # values are not to be truncated or replaced
            check(modes & {"STRICT_ALL_TABLES", "TRADITIONAL"}, f"MySQL adjusts invalid values in SQL mode {modes}")
            check("NO_BACKSLASH_ESCAPES" not in modes, "backslash is not an escape character")
            # a key of zero is a key, not a request for the next number
            check("NO_AUTO_VALUE_ON_ZERO" in modes, f"MySQL replaces zero in an identity column in SQL mode {modes}")
            # date and time values without a time zone are those of UTC
            zones = re.findall(r"time_zone\s*=\s*['\"]([^'\"]*)['\"]", text)
            check(zones and zones[-1] in ("+00:00", "UTC"), f"time zone of the session is {zones}")
        elif dialect == "oracle":
            formats = re.findall(r"NLS_DATE_FORMAT\s*=\s*'([^']*)'", " ".join(session.settings))
            check(formats and formats[-1] == "YYYY-MM-DD HH24:MI:SS", f"date format of the session is {formats}")
        check_equal(len(server.committed), 1 + 0, "statements committed")
    return Result(True, [dialect])


def settings_cases():
    return st.fixed_dictionaries(
        {
            "dialect": st.sampled_from(DIALECTS),
            "params": st.fixed_dictionaries(
                {
                    "host": st.sampled_from([None, "db.example.com"]),
                    "port": st.sampled_from([None, 1234]),
                    "username": st.sampled_from([None, "user"]),
                    "password": st.sampled_from([None, "secret"]),
                    "database": st.sampled_from([None, "db"]),
                }
            ),
        }
    )


# --------------------------------------------------------------------------------------------------------- generators


@st.composite
def generator_cases(draw):
    o = draw(S.options(S.ALL))
    spec = draw(S.schemas(o, min_entities=2))
    n = sum(len(m["entities"]) for m in spec["modules"])
    step = st.tuples(st.integers(0, 2), st.one_of(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True), st.just([]), st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True)))
    return {
        "opts": o,
        "spec": spec,
        "how": draw(st.lists(st.sampled_from(["generator", "connection"]), min_size=3, max_size=3)),
        "steps": [list(x) for x in draw(st.lists(step, min_size=2, max_size=6))],
    }


def outcome(g, entities):
    try:
        return g.create(tables=entities) if entities else g.drop()
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def run_generators(case):
    "Generators and connections made by the same engine with the same options do not share what they know."
    opts, spec = case["opts"], case["spec"]
    dialect = opts["dialect"]
    engine = get_dialect(dialect)
    with S.Build(spec) as b:
        shared = S.make_options(opts, b)
        before = repr(shared)

        def make(how, options):
            if how == "connection":
                try:
                    return engine.create_connection(ConnectionParameters(host="h"), options).generator
                except NotImplementedError:
                    pass  # no driver for the dialect
            return engine.create_generator(options)

        together = [make(how, shared) for how in case["how"]]
        alone = {i: make("generator", S.make_options(opts, b)) for i in range(3)}
        # what each is expected to say, one after another
        expected = {}
        for i in range(3):
            for k, (j, picked) in enumerate(case["steps"]):
                if i == j:
                    expected[k] = outcome(alone[i], [b.entities[x] for x in picked])
        for k, (i, picked) in enumerate(case["steps"]):
            got = outcome(together[i], [b.entities[x] for x in picked])
            check_equal(got, expected[k], f"statement {k} (of generator {i})")
        for i in range(3):
            check_equal(repr(together[i].state), repr(alone[i].state), f"model of generator {i}")
        check_equal(repr(shared), before, "options after use")
    users = {i for i, picked in case["steps"] if picked}
    return Result(len(users) > 1, [dialect])


PARTS = [
    Part("sessions", session_cases, run, quick=900, thorough=20000),
    Part("generators", generator_cases, run_generators, quick=300, thorough=5000),
    Part("blocking", blocking_cases, run_blocking, quick=150, thorough=2000),
    Part("settings", settings_cases, run_settings, quick=100, thorough=1000),
]
