"C22: query results keep their shape, order and values."

import dataclasses
import datetime
import decimal
import typing
from typing import Any

from hypothesis import strategies as st

import several
from codec import dec, enc, same
from drivers import DRIVER_DIALECTS, Backend, PGRecord, PyodbcRow, make_context, run_async
from pysqlsync.base import QueryException
from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_object, resultset_unwrap_tuple
from vh import Part, Result, Violation, check, check_equal

PROPERTY = "C22"
RULE = (
    "A case is a result-set (0-8 rows of 0-5 typed or NULL values) and a signature: scalar, tuple (matching or not in length), data class "
    "(same columns in the same or another order, a missing required column, an extra column), or unsupported; it is run through query_all and "
    "query_one of the PostgreSQL, MySQL, Microsoft SQL Server and Oracle contexts on a fake driver, and through the resultset functions "
    "directly with lists, tuples and generators. In part several, results of queries on equally named tables by equally named data classes alternate with inserts. Non-trivial: at least two rows or a mismatched or unsupported signature (several: the same operation on equally named tables in two schemas)."
)
ASSUMPTIONS = [
    "rows of one result-set have the same number of columns, as delivered by a driver",
    "an empty result-set has no shape to check (drivers deliver no row)",
    "data-class signatures are matched by column name; an extra column is only required to be reported where the driver delivers rows as mappings "
    "(PostgreSQL, MySQL) or positionally (Oracle)",
]

SCALARS = {"bool": bool, "int": int, "float": float, "str": str}
VALUES = {
    "bool": st.booleans(),
    "int": st.integers(-(2**70), 2**70),
    "float": st.floats(allow_nan=False),
    "str": st.text(st.characters(exclude_categories=("Cs",)), max_size=5),
    "bytes": st.binary(max_size=4),
    "datetime": st.datetimes(),
    "decimal": st.decimals(allow_nan=False, allow_infinity=False, places=3, min_value=-1000, max_value=1000),
}
TYPES: dict[str, Any] = {
    **SCALARS,
    "bytes": bytes,
    "datetime": datetime.datetime,
    "decimal": decimal.Decimal,
}
UNSUPPORTED: dict[str, Any] = {
    "list": list[int],
    "dict": dict[str, int],
    "bytes": bytes,
    "datetime": datetime.datetime,
    "none": type(None),
    "optional": typing.Optional[int],
    "plain": object,
    "set": set[str],
}
FIELD_NAMES = ["a", "b", "id", "name", "Value", "is_null", "count", "index", "table_name", "x"]


@st.composite
def _case(draw):
    width = draw(st.integers(1, 5))
    kind = draw(st.sampled_from(["scalar", "tuple", "tuple", "tuple_mismatch", "scalar_mismatch", "object", "object", "object_missing", "object_extra", "unsupported"]))
    if kind == "scalar":
        width = 1
        kinds = [draw(st.sampled_from(sorted(SCALARS)))]
    else:
        if kind == "scalar_mismatch":
            width = draw(st.sampled_from([0, 2, 3]))
        kinds = draw(st.lists(st.sampled_from(sorted(VALUES)), min_size=width, max_size=width))
    names = draw(st.lists(st.sampled_from(FIELD_NAMES), min_size=width, max_size=width, unique=True))
    row = [st.one_of(VALUES[k], VALUES[k], st.none()).map(enc) for k in kinds]
    rows = draw(st.lists(st.tuples(*row).map(list), min_size=1 if "mismatch" in kind or "_" in kind or kind == "unsupported" else 0, max_size=8))
    spec = {
        "dialect": draw(st.sampled_from([*DRIVER_DIALECTS] + ([] if kind.startswith("object") else ["trino"]))),
        "kind": kind,
        "kinds": kinds,
        "names": names,
        "rows": rows,
        "perm": draw(st.permutations(range(width))),
        "extra": draw(st.integers(0, 6).filter(lambda n: n != width)),
        "bad": draw(st.sampled_from(sorted(UNSUPPORTED))),
        "scalar": draw(st.sampled_from(sorted(SCALARS))),
        "frozen": draw(st.booleans()),
        "debug": draw(st.integers(0, 9)) == 0,
    }
    return spec


class Canned(Backend):
    def __init__(self, names, rows):
        super().__init__()
        self.names, self.rows = names, rows

    def on_query(self, sql):
        return [(self.names, r) for r in self.rows]


class ResultSetBuffer:
    "A one-shot iterable."

    def __init__(self, rows):
        self.rows = rows

    def __iter__(self):
        return iter(list(self.rows))


def _run(spec):
    kind = spec["kind"]
    names = list(spec["names"])
    rows = [tuple(dec(v) for v in r) for r in spec["rows"]]
    types = [TYPES[k] for k in spec["kinds"]]
    fails = False
    expected: Any = None

    def make(field_names, field_types):
        return dataclasses.make_dataclass("Row", list(zip(field_names, field_types)), frozen=spec["frozen"])

    def as_dicts(items):
        for i in items:
            if not dataclasses.is_dataclass(i):
                raise Violation(f"expected data-class instances; got {i!r}")
        return [{f.name: getattr(i, f.name) for f in dataclasses.fields(i)} for i in items]

    dialects_strict = True
    if kind == "scalar":
        signature: Any = types[0]
        expected = [r[0] for r in rows]
    elif kind == "scalar_mismatch":
        signature = SCALARS[spec["scalar"]]
        fails = True
    elif kind == "tuple":
        signature = tuple[tuple(types)]
        expected = rows
    elif kind == "tuple_mismatch":
        n = spec["extra"]
        signature = tuple[tuple((types * 7)[:n])] if n else tuple[()]
        fails = True
    elif kind == "object":
        signature = make([names[i] for i in spec["perm"]], [types[i] for i in spec["perm"]])
        expected = [dict(zip(names, r)) for r in rows]
    elif kind == "object_missing":
        signature = make(names + ["missing_column"], types + [int])
        fails = True
    elif kind == "object_extra":
        keep = names[1:]
        signature = make(keep, types[1:])
        fails = True
        dialects_strict = False
    else:
        signature = UNSUPPORTED[spec["bad"]]
        fails = True

    def verify(what, fn):
        try:
            got = fn()
        except Exception as e:
            if fails:
                check(
                    isinstance(e, (QueryException, ValueError, TypeError, AttributeError, KeyError, LookupError)),
                    lambda: f"{what}: unexpected {e!r}",
                )
                return
            raise
        if fails:
            raise Violation(f"{what}: signature {signature} accepted for columns {names}; result {got!r}")
        check(isinstance(got, (list, tuple)), lambda: f"{what}: result is a {type(got).__name__}")
        check_equal(len(got), len(expected), f"{what}: number of rows")
        actual = as_dicts(got) if kind == "object" else list(got)
        for a, e in zip(actual, expected):
            check(same(a, e), lambda: f"{what}: delivered {a!r}; expected {e!r}")

    # through the driver
    dialect = spec["dialect"]
    if dialects_strict or dialect != "mssql":
        backend = Canned(names, rows)
        ctx = make_context(dialect, backend)
        verify(f"{dialect} query_all", lambda: run_async(ctx.query_all(signature, "SELECT something")))
        check_equal(backend.log, [("query", "SELECT something")], "driver calls")
        if rows and not fails:
            one = run_async(ctx.query_one(signature, "SELECT something"))
            first = as_dicts([one])[0] if kind == "object" else one
            check(same(first, expected[0]), lambda: f"query_one: delivered {one!r}; expected {expected[0]!r}")

    # directly
    if kind in ("scalar", "scalar_mismatch", "tuple", "tuple_mismatch", "unsupported"):
        verify("unwrap list of tuples", lambda: resultset_unwrap_tuple(signature, list(rows)))
        verify("unwrap tuple of lists", lambda: resultset_unwrap_tuple(signature, tuple(list(r) for r in rows)))
        verify("unwrap generator", lambda: resultset_unwrap_tuple(signature, (r for r in rows)))
        verify("unwrap records", lambda: resultset_unwrap_tuple(signature, [PGRecord(names, r) for r in rows]))
        verify("unwrap rows", lambda: resultset_unwrap_tuple(signature, iter([PyodbcRow(names, r) for r in rows])))
    if kind in ("object", "object_missing", "object_extra", "unsupported"):
        verify("unwrap dict", lambda: resultset_unwrap_dict(signature, (dict(zip(names, r)) for r in rows)))
        if dialects_strict:
            verify("unwrap object", lambda: resultset_unwrap_object(signature, (PyodbcRow(names, r) for r in rows)))
    return Result(nontrivial=len(rows) >= 2 or fails, labels=(kind,))


PARTS = [Part("shape", _case, _run, quick=4000, thorough=80000), Part("several", lambda: several.histories(DRIVER_DIALECTS, kinds=("insert", "query", "query")), several.run, quick=300, thorough=8000)]
