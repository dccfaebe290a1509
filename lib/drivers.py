"""
Stand-ins for the native database drivers.

Each fake implements the part of the driver interface that pysqlsync uses, records every call, optionally injects a
failure at the n-th call, and optionally executes what it was handed on the reference database (``refdb.RefDB``).
"""

from __future__ import annotations

import asyncio
import os
from typing import Any, Callable, Iterable, Optional

from pysqlsync.base import BaseConnection, BaseContext, GeneratorOptions
from pysqlsync.connection import ConnectionParameters
from pysqlsync.factory import get_dialect


class DriverFailure(Exception):
    "Raised by a fake driver on purpose."


class Backend:
    """
    Records every call; subclasses give the calls an effect.

    Event kinds: ("execute", sql), ("many", sql, rows), ("copy", (schema, table), columns, rows), ("query", sql)
    """

    def __init__(self) -> None:
        self.log: list[tuple] = []
        self.fail_at: Optional[int] = None
        self.failure: Callable[[], Exception] = lambda: DriverFailure("injected")
        self.raised: Optional[Exception] = None
        self.sizes: list = []

    def _event(self, event: tuple) -> None:
        index = len(self.log)
        self.log.append(event)
        if self.fail_at is not None and index == self.fail_at and self.raised is None:
            self.raised = self.failure()
            raise self.raised

    def execute(self, sql: str) -> None:
        self._event(("execute", sql))
        self.on_execute(sql)

    def many(self, sql: str, rows: list, sizes: Any = None, prepared: Optional[str] = None) -> None:
        self.sizes.append(sizes)
        self._event(("many", sql, rows))
        self.on_many(prepared or sql, rows)

    def copy(self, schema: Optional[str], table: str, columns: list[str], rows: list) -> None:
        self._event(("copy", (schema, table), tuple(columns), rows))
        self.on_copy(schema, table, columns, rows)

    def stream(self, sql: str, data: bytes) -> None:
        self._event(("stream", sql, data))
        self.on_stream(sql, data)

    def query(self, sql: str) -> list[tuple[tuple[str, ...], tuple]]:
        self._event(("query", sql))
        return self.on_query(sql)

    def on_execute(self, sql: str) -> None: ...

    def on_many(self, sql: str, rows: list) -> None: ...

    def on_copy(self, schema, table, columns, rows) -> None: ...

    def on_stream(self, sql: str, data: bytes) -> None: ...

    def on_query(self, sql: str) -> list:
        return []


class DriverUsageError(Exception):
    "The code under test used the driver in a way the real driver rejects."


# --- PostgreSQL


class PGRecord:
    "Behaves like `asyncpg.Record`: a sequence of values with a mapping interface; not a tuple."

    def __init__(self, names, values):
        self._names = tuple(names)
        self._values = tuple(values)

    def __len__(self):
        return len(self._values)

    def __iter__(self):
        return iter(self._values)

    def __getitem__(self, key):
        if isinstance(key, str):
            # the last one of several columns of the same name
            return self._values[len(self._names) - 1 - self._names[::-1].index(key)]
        return self._values[key]

    def keys(self):
        return iter(self._names)

    def values(self):
        return iter(self._values)

    def items(self):
        return zip(self._names, self._values)

    def get(self, key, default=None):
        return self[key] if key in self._names else default


class FakeAsyncpg:
    def __init__(self, backend: Backend):
        self.backend = backend

    async def execute(self, query: str, *args):
        if args:
            raise DriverUsageError("unexpected arguments")
        self.backend.execute(query)
        return "OK"

    async def executemany(self, command: str, args: Iterable):
        self.backend.many(command, list(args))

    async def fetch(self, query: str):
        return [PGRecord(n, v) for n, v in self.backend.query(query)]

    async def copy_records_to_table(self, table_name, *, records, columns=None, schema_name=None):
        cols = list(columns) if columns is not None else None
        rows = []
        for r in records:
            r = tuple(r)
            if cols is not None and len(r) != len(cols):
                raise DriverUsageError(f"COPY record has {len(r)} values for {len(cols)} columns: {r!r} {cols!r}")
            rows.append(r)
        self.backend.copy(schema_name, table_name, cols, rows)
        return f"COPY {len(rows)}"

    async def close(self):
        pass


# --- MySQL


def mysql_statements(query: str, rows: Iterable) -> list[str]:
    "The statements that the real driver (aiomysql) sends for `executemany`."
    import aiomysql
    from pymysql.converters import escape_item

    class Connection:
        encoding = "utf8"

        def escape(self, obj):
            return escape_item(obj, "utf8mb4")

    class Cursor(aiomysql.Cursor):
        def __init__(self):
            self._echo = False
            self._rowcount = 0
            self._executed = None
            self._connection = Connection()
            self.sent = []

        def _get_db(self):
            return self._connection

        async def _query(self, q):
            self.sent.append(bytes(q).decode("utf8", "surrogateescape") if isinstance(q, (bytes, bytearray)) else q)

        async def nextset(self):
            return None

        def __del__(self):
            pass

    cursor = Cursor()

    coro = cursor.executemany(query, rows)
    try:
        while True:
            coro.send(None)
    except StopIteration:
        pass
    return cursor.sent


class FakeAiomysqlCursor:
    def __init__(self, backend: Backend, as_dict: bool):
        self.backend = backend
        self.as_dict = as_dict
        self._rows: list = []

    async def __aenter__(self):
        return self

    async def __aexit__(self, *args):
        return None

    async def execute(self, query: str, args=None):
        head = query.lstrip().upper()
        if head.startswith("SELECT") or head.startswith("SHOW"):
            self._rows = self.backend.query(query)
        else:
            self.backend.execute(query)

    async def executemany(self, query: str, args):
        rows = list(args)
        if not rows:
            return None
        self.backend.many(query, rows)

    async def fetchall(self):
        if self.as_dict:
            return [dict(zip(n, v)) for n, v in self._rows]
        return tuple(tuple(v) for _, v in self._rows)

    async def close(self):
        pass


class _CursorContext:
    "Both awaitable and an asynchronous context manager, like `aiomysql.Connection.cursor()`."

    def __init__(self, cursor):
        self.cursor = cursor

    def __await__(self):
        async def get():
            return self.cursor

        return get().__await__()

    async def __aenter__(self):
        return self.cursor

    async def __aexit__(self, *args):
        return None


class FakeAiomysql:
    def __init__(self, backend: Backend):
        self.backend = backend

    def cursor(self, *cursors):
        as_dict = any("Dict" in getattr(c, "__name__", "") for c in cursors)
        return _CursorContext(FakeAiomysqlCursor(self.backend, as_dict))

    def close(self):
        pass


# --- Microsoft SQL Server


class PyodbcRow:
    def __init__(self, names, values):
        object.__setattr__(self, "_values", tuple(values))
        object.__setattr__(self, "cursor_description", tuple((n,) for n in names))
        for n, v in zip(names, values):
            self.__dict__[n] = v

    def __len__(self):
        return len(self._values)

    def __iter__(self):
        return iter(self._values)

    def __getitem__(self, i):
        return self._values[i]


def odbc_bound(value: Any, size: Any) -> Any:
    """The value that pyodbc's `fast_executemany` sends for a parameter whose type is fixed with `setinputsizes`.

    Follows `ExecuteMulti` of pyodbc 5: a timestamp is cut to as many decimal digits as are declared, a time of the
    type SQL_TYPE_TIME has no fraction at all, and strings, binary data, integers and decimals must fit what is declared.
    """
    import datetime
    import decimal

    import pyodbc

    if value is None or size is None:
        return value
    kind, width, digits = size
    if kind == pyodbc.SQL_UNKNOWN_TYPE:
        return value
    if kind == pyodbc.SQL_TYPE_TIMESTAMP and isinstance(value, datetime.datetime):
        unit = 10 ** max(6 - digits, 0)
        return value.replace(microsecond=value.microsecond // unit * unit)
    if kind == pyodbc.SQL_TYPE_TIME and isinstance(value, datetime.time):
        return value.replace(microsecond=0)
    if isinstance(value, bool):
        return value
    if isinstance(value, int) and kind in ODBC_INTEGERS:
        lo, hi = ODBC_INTEGERS[kind]
        if not lo <= value <= hi:
            raise DriverUsageError(f"Numeric value out of range for the ODBC type {kind}: {value}")
    elif isinstance(value, str) and kind in (pyodbc.SQL_CHAR, pyodbc.SQL_VARCHAR, pyodbc.SQL_WCHAR, pyodbc.SQL_WVARCHAR):
        if width and len(value.encode("utf-16-le", "surrogatepass")) // 2 > width:
            raise DriverUsageError(f"String data, right truncation: {value!r} bound with a length of {width}")
    elif isinstance(value, (bytes, bytearray)) and kind in (pyodbc.SQL_BINARY, pyodbc.SQL_VARBINARY):
        if width and len(value) > width:
            raise DriverUsageError(f"String data, right truncation: {value!r} bound with a length of {width}")
    elif isinstance(value, decimal.Decimal) and kind in (pyodbc.SQL_DECIMAL, pyodbc.SQL_NUMERIC):
        _, places, exponent = value.as_tuple()
        if -exponent > digits or len(places) + digits + exponent > width:
            raise DriverUsageError(f"Converting decimal loses precision: {value} bound as ({width}, {digits})")
    return value


# types of integers in ODBC, with their range
ODBC_INTEGERS = {
    -6: (0, 255),  # tinyint
    5: (-(2**15), 2**15 - 1),  # smallint
    4: (-(2**31), 2**31 - 1),  # integer
    -5: (-(2**63), 2**63 - 1),  # bigint
}


class FakePyodbcCursor:
    def __init__(self, backend: Backend):
        self.backend = backend
        self._rows: list = []
        self._sizes = None
        self.fast_executemany = False

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None

    def execute(self, sql: str, *args):
        head = sql.lstrip().upper()
        if head.startswith("SELECT"):
            self._rows = self.backend.query(sql)
        else:
            self.backend.execute(sql)
        return self

    def setinputsizes(self, sizes):
        self._sizes = list(sizes)

    def executemany(self, sql: str, params):
        rows = [tuple(r) for r in params]
        if not rows:
            raise DriverUsageError("The second parameter to executemany must not be empty.")
        if self._sizes is not None:
            for r in rows:
                if len(r) != len(self._sizes):
                    raise DriverUsageError(f"{len(self._sizes)} input sizes for {len(r)} parameters")
            if self.fast_executemany:
                rows = [tuple(odbc_bound(v, s) for v, s in zip(r, self._sizes)) for r in rows]
        self.backend.many(sql, rows, self._sizes)

    def fetchall(self):
        return [PyodbcRow(n, v) for n, v in self._rows]

    def close(self):
        pass


class FakePyodbc:
    def __init__(self, backend: Backend):
        self.backend = backend

    def cursor(self):
        return FakePyodbcCursor(self.backend)

    def close(self):
        pass


# --- Oracle


class FakeOracleCursor:
    def __init__(self, backend: Backend):
        self.backend = backend
        self._rows: list = []
        self._sizes = None
        self.rowfactory = None
        self.description = None

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None

    def execute(self, sql: str, *args):
        head = sql.lstrip().upper()
        if head.startswith("SELECT"):
            self._rows = self.backend.query(sql)
            names = self._rows[0][0] if self._rows else ()
            self.description = [(n, None, None, None, None, None, None) for n in names]
            self.rowfactory = None
        else:
            self.backend.execute(sql)
        return self

    def var(self, *args, **kwargs):
        return ("var", args, tuple(sorted(kwargs.items())))

    def setinputsizes(self, *args, **kwargs):
        self._sizes = list(args)

    def executemany(self, sql: str, parameters):
        if not isinstance(parameters, (list, int)):
            raise DriverUsageError("parameters should be a list of sequences/dictionaries or an integer")
        rows = [tuple(r) for r in parameters]
        if self._sizes is not None:
            for r in rows:
                if len(r) != len(self._sizes):
                    raise DriverUsageError(f"{len(self._sizes)} input sizes for {len(r)} parameters")
        self.backend.many(sql, rows, self._sizes)

    def fetchall(self):
        rows = [tuple(v) for _, v in self._rows]
        if self.rowfactory is not None:
            return [self.rowfactory(*r) for r in rows]
        return rows

    def close(self):
        pass


class FakeOracle:
    def __init__(self, backend: Backend):
        self.backend = backend
        self.autocommit = True

    def cursor(self):
        return FakeOracleCursor(self.backend)

    def close(self):
        pass


# --- Redshift


class FakeRedshiftCursor:
    def __init__(self, backend: Backend):
        self.backend = backend
        self._rows: list = []
        import redshift_connector

        self.paramstyle = redshift_connector.paramstyle

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None

    def execute(self, operation: str, args=None, stream=None):
        # all statements go through this conversion, with or without arguments
        from redshift_connector.core import convert_paramstyle

        operation, _ = convert_paramstyle(self.paramstyle, operation)
        if stream is not None:
            self.backend.stream(operation, stream.read())
        elif operation.lstrip().upper().startswith("SELECT"):
            self._rows = self.backend.query(operation)
        else:
            self.backend.execute(operation)
        return self

    def executemany(self, operation: str, param_sets):
        from redshift_connector.core import convert_paramstyle

        rows = [tuple(r) for r in param_sets]
        prepared, _ = convert_paramstyle(self.paramstyle, operation)
        self.backend.many(operation, rows, prepared=prepared)
        return self

    @property
    def description(self):
        return [(n, 0, None, None, None, None, None) for n in self._rows[0][0]] if self._rows else []

    def fetchall(self):
        return tuple(list(v) for _, v in self._rows)

    def close(self):
        pass


class FakeRedshift:
    def __init__(self, backend: Backend):
        self.backend = backend
        self.autocommit = True

    def cursor(self):
        return FakeRedshiftCursor(self.backend)

    def close(self):
        pass


# --- Trino (queries only)


class FakeTrinoCursor:
    def __init__(self, backend: Backend):
        self.backend = backend
        self._rows: list = []

    async def execute(self, operation: str, params=None):
        if operation.lstrip().upper().startswith("SELECT"):
            self._rows = self.backend.query(operation)
        else:
            self.backend.execute(operation)

    async def fetchall(self):
        return [list(v) for _, v in self._rows]


class FakeTrino:
    def __init__(self, backend: Backend):
        self.backend = backend

    async def cursor(self, cursor_style: str = "row", legacy_primitive_types=None):
        return FakeTrinoCursor(self.backend)

    async def close(self):
        pass


_FAKES = {
    "trino": FakeTrino,
    "redshift": FakeRedshift,
    "postgresql": FakeAsyncpg,
    "mysql": FakeAiomysql,
    "mssql": FakePyodbc,
    "oracle": FakeOracle,
}

DRIVER_DIALECTS = ("postgresql", "mysql", "mssql", "oracle", "redshift")
SCRIPT_DIALECTS = tuple(d for d in _FAKES if d != "trino")


def make_context(dialect: str, backend: Backend, options: Optional[GeneratorOptions] = None) -> BaseContext:
    "Creates a context of the real connection class on top of a fake native driver."

    engine = get_dialect(dialect)
    conn: BaseConnection = engine.create_connection(
        ConnectionParameters(host="localhost", username="u", password="p"), options
    )
    conn.native = _FAKES[dialect](backend)  # type: ignore[attr-defined]
    import importlib

    module = importlib.import_module(type(conn).__module__)
    from pysqlsync.base import BaseContext as _BC

    candidates = [
        c
        for c in vars(module).values()
        if isinstance(c, type) and issubclass(c, _BC) and c is not _BC and c.__module__ == module.__name__
    ]
    if len(candidates) != 1:
        raise RuntimeError(f"cannot determine the context class of {dialect}")
    return candidates[0](conn)


_loop: Optional[asyncio.AbstractEventLoop] = None
_loop_process = 0


def run_async(coro):
    global _loop, _loop_process
    if _loop is None or _loop.is_closed() or _loop_process != os.getpid():
        # (a process started by this one would share the descriptors by which threads wake the loop up)
        _loop = asyncio.new_event_loop()
        _loop_process = os.getpid()
    return _loop.run_until_complete(coro)
