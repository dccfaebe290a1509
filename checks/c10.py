"""
C10: delete removes exactly the rows with the given keys.

Rows with keys of every type are loaded, then deleted by both interfaces in histories compared with a dictionary. Tables
without a single-column primary key must be refused before anything is sent.
"""

from hypothesis import strategies as st

import data as D
import history as H
import schema as S
import several
from drivers import DRIVER_DIALECTS, run_async
from vh import Part, Result, check, check_equal

PROPERTY = "C10"
RULE = "a delete removes some but not all rows, or the table has no single-column primary key; in part several, the same operation on equally named tables in two schemas"
ASSUMPTIONS = ["key values have the type of the key column (no NULL)", "RefDB (lib/refdb.py) executes DELETE like the real databases do"]
KEYS = ("int", "identity", "uuid", "text", "date", "ipv4")


@st.composite
def unkeyed(draw):
    o = draw(S.options(DRIVER_DIALECTS, auto_default=False))
    return {
        "opts": o,
        "spec": draw(D.tables(o, keys=("int", "uuid", "text"))),
        "key": draw(st.sampled_from([0, 2, 3])),
        "source": draw(st.sampled_from(D.SOURCES[:4])),
        "keys": draw(st.lists(st.integers(1, 5), min_size=1, max_size=3)),
    }


def run_unkeyed(case):
    "A table whose primary key consists of no or several columns, as discovery may find it."

    opts, spec = case["opts"], case["spec"]
    with S.Build(spec) as b:
        ld = D.Loader(spec, opts, b)
        generator = ld.context.connection.generator
        table = ld.table()
        columns = list(table.columns.values())
        if len(columns) < case["key"]:
            return Result(False, ["too few columns"])
        other = generator.factory.table_class(table.name, columns, primary_key=tuple(c.name for c in columns[: case["key"]]))
        source = D.Source(case["source"], case["keys"])
        try:
            run_async(ld.context.delete_rows(other, int, source.get()))
        except Exception as e:
            check_equal(ld.store.log[ld.start :], [], f"statements sent although deletion is refused with {e!r}")
        else:
            check(False, lambda: f"deletion by key from a table with primary key {[str(c) for c in other.primary_key]} has not been refused: {ld.store.log[ld.start :]}")
    return Result(True, [opts["dialect"], case["key"]])


@st.composite
def many(draw):
    "Deletes a number of keys in one go from a table with more rows than a batch."
    c = draw(H.histories(DRIVER_DIALECTS, keys=KEYS, ops=("insert",), max_ops=2, max_keys=60, max_records=30))
    c["opts"]["dialect"]
    n = draw(st.integers(1, 70))
    ids = draw(st.lists(st.integers(1, 70), min_size=n, max_size=n, unique=True))
    c["ops"].append({"op": "delete", "objects": draw(st.booleans()), "batch": draw(st.sampled_from([1, 7, 10, 100])), "source": draw(st.sampled_from(D.SOURCES[:4])), "keys": ids})
    return c


PARTS = [
    Part("histories", lambda: H.histories(DRIVER_DIALECTS, keys=KEYS, ops=("insert", "delete"), kinds=("number", "text", "enum", "ref")), H.run, quick=1200, thorough=25000),
    Part("many", many, H.run, quick=120, thorough=3000),
    Part("unkeyed", unkeyed, run_unkeyed, quick=150, thorough=2000),
    Part("several", lambda: several.histories(DRIVER_DIALECTS, kinds=("insert", "insert", "delete", "delete")), several.run, quick=400, thorough=8000),
]
