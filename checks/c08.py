"""
C08: bulk insert stores each record once, each value in its own column.

Records are inserted through the real connection class on a stand-in for the driver, which executes what it is handed on
the reference database. Rows must come out one per record, in order, each value in the column named for its position.
"""

from hypothesis import strategies as st

import data as D
import schema as S
import several
from codec import dec, enc
from drivers import DRIVER_DIALECTS, run_async
from vh import Part, Result, check, check_equal

import pysqlsync.base as base

PROPERTY = "C08"
RULE = "at least two records, and a permutation of columns, an omitted position, an identity column or more than one batch; in part several, the same operation on equally named tables in two schemas"
ASSUMPTIONS = [
    "RefDB (lib/refdb.py) stores what the real databases store",
    "values follow the conventions of lib/data.py (see C12 for the encoding of values)",
    "only columns that are nullable, have a default or are identity columns are left out",
    "at least one column other than identity columns is supplied",
    "field names are given, or the record has one item per column in column order (identity columns optional)",
]


@st.composite
def cases(draw, dialects=DRIVER_DIALECTS, max_records=7):
    o = draw(S.options(dialects, auto_default=False))
    spec = draw(D.tables(o))
    fields = D.fields_of(spec)
    n = draw(st.sampled_from([0, 1, 2, 3, 5, max_records]))
    named = draw(st.integers(0, 4)) > 0
    positions = []
    for f in fields:
        p = {"field": f["name"]}
        if (D.omittable(f, o) or f.get("role") == "id") and draw(st.integers(0, 3)) == 0:
            p["omit"] = draw(st.sampled_from(["name", "type", "both"])) if named else "type"
        positions.append(p)
    if named:
        # fields need not be mentioned at all
        positions = [p for p in positions if not (p.get("omit") and draw(st.booleans()))]
        for i in range(draw(st.integers(0, 2))):
            positions.append({"field": None, "omit": draw(st.sampled_from(["name", "type", "both"]))})
        positions = draw(st.permutations(positions))
    elif draw(st.booleans()):
        ids = [f["name"] for f in fields if f.get("role") == "id"]
        positions = [p for p in positions if p["field"] not in ids]
    by_name = {f["name"]: f for f in fields}
    if not any(not p.get("omit") and by_name[p["field"]].get("role") != "id" for p in positions):
        first = next(f["name"] for f in fields if f.get("role") != "id")
        positions = [p for p in positions if p["field"] != first] + [{"field": first}] if named else [{k: v for k, v in p.items() if k != "omit" or p["field"] != first} for p in positions]
    records = []
    for i in range(n):
        record = []
        for p in positions:
            if p["field"] is None:
                record.append(enc(draw(st.sampled_from([None, "junk", 17]))))
                continue
            f = by_name[p["field"]]
            if f.get("role") or f.get("unique"):
                record.append(enc(None if f.get("unique") and f.get("opt") and draw(st.booleans()) else D.key_value(f["type"], i + 1)))
            elif f.get("opt") and draw(st.integers(0, 3)) == 0:
                record.append(enc(None))
            else:
                record.append(enc(draw(D.values(f["type"], spec, o))))
        records.append(record)
    c = {
        "opts": o,
        "spec": spec,
        "named": named,
        "positions": positions,
        "records": records,
        "batch": draw(st.sampled_from([1, 2, 3, 4, 100])),
        "source": draw(st.sampled_from(D.SOURCES)),
        "members": draw(st.booleans()),
    }
    if named and draw(st.integers(0, 9)) == 0:
        c["unknown"] = draw(st.sampled_from(["nosuch", "ID", "id ", "Main", '"id"', "data"]))
        if c["unknown"] in by_name:
            del c["unknown"]
    return c


def supplied(case, fields):
    "Fields by position, without those omitted."
    by_name = {f["name"]: f for f in fields}
    return [(i, by_name[p["field"]]) for i, p in enumerate(case["positions"]) if p["field"] is not None and not p.get("omit")]


def signature(case, ld, fields):
    by_name = {f["name"]: f for f in fields}
    types, names = [], []
    for p in case["positions"]:
        omit = p.get("omit")
        f = by_name.get(p["field"])
        types.append(type(None) if omit in ("type", "both") else D.row_type(ld.build, f["type"], case["members"]) if f else str)
        names.append("" if omit in ("name", "both") else p["field"] or "junk")
    return tuple(types), tuple(names)


def rows_of(case, ld, fields):
    by_name = {f["name"]: f for f in fields}
    out = []
    for record in case["records"]:
        row = []
        for p, x in zip(case["positions"], record):
            v = dec(x)
            f = by_name.get(p["field"])
            row.append(v if f is None else D.to_row(ld.build, ld.spec, ld.opts, f["type"], v, case["members"]))
        out.append(tuple(row))
    return out


def run(case):
    opts, spec = case["opts"], case["spec"]
    dialect = opts["dialect"]
    fields = D.fields_of(spec)
    size = base.BATCH_SIZE
    with S.Build(spec) as b:
        ld = D.Loader(spec, opts, b)
        types, names = signature(case, ld, fields)
        rows = rows_of(case, ld, fields)
        source = D.Source(case["source"], rows)
        if case.get("unknown") is not None:
            types, names = types + (str,), names + (case["unknown"],)
            source = D.Source(case["source"], [r + ("x",) for r in rows])
        table = ld.table()
        base.BATCH_SIZE = case["batch"]
        try:
            run_async(ld.context.insert_rows(table, source.get(), field_types=types, field_names=names if case["named"] else None))
        except ValueError as e:
            if case.get("unknown") is None:
                raise
            check_equal(ld.store.log[ld.start :], [], "statements sent in spite of an unknown column")
            return Result(True, [dialect, "unknown column"])
        finally:
            base.BATCH_SIZE = size
        if case.get("unknown") is not None:
            check(not rows and case["source"] in ("list", "tuple"), lambda: f"unknown column {case['unknown']!r} has been accepted")
            return Result(False, [dialect, "unknown column, no records"])
        given = supplied(case, fields)
        log = ld.store.log[ld.start :]
        check_equal([e for e in log if e[0] == "execute"], [], "statements executed without records")
        tkey = ld.key()
        stored = ld.rows()
        check_equal(len(stored), len(rows), f"number of rows of {tkey} after inserting {len(rows)} record(s)")
        # what the driver was handed
        handed, sent = [], 0
        for e, size in zip([e for e in ld.store.log if e[0] == "many"], ld.store.sizes):
            if e not in log:
                continue
            if size is not None:
                columns = [table.columns[f["name"]] for _, f in given if f.get("role") != "id"]
                check_equal(list(size), [parameter_size(dialect, c) for c in columns], f"sizes of parameters for columns {[str(c.name) for c in columns]}")
        skipped = {f["name"] for f in fields} - {f["name"] for _, f in given if f.get("role") != "id"}
        cols = ld.store.db.tables[tkey].cols
        for record, row in zip(case["records"], stored):
            for i, f in given:
                if f.get("role") == "id":
                    continue
                v = dec(record[i])
                check(D.denotes(ld, f["type"], row[f["name"]], v), lambda: f"{f['name']} holds {row[f['name']]!r} for {v!r}\nrecord {record}\nrow {row}")
            for n in skipped:
                if not cols[n].identity:
                    check_equal(row[n], ld.store.db._default_value(cols[n]), f"column {n}, which was left out")
        ids = [c.name for c in cols.values() if c.identity]
        for n in ids:
            check_equal([r[n] for r in stored], list(range(1, len(rows) + 1)), f"identity column {n}")
        check(source.started <= 1, lambda: f"source has been iterated {source.started} times")
    varied = [p["field"] for p in case["positions"]] != [f["name"] for f in fields] or any(p.get("omit") for p in case["positions"]) or bool(ids) or len(rows) > case["batch"]
    return Result(len(rows) > 1 and varied, [dialect, case["source"], "named" if case["named"] else "unnamed", "identity" if ids else "key"])


def parameter_size(dialect, column):
    if dialect == "mssql":
        from pysqlsync.dialect.mssql.data_types import sql_to_odbc_type

        return sql_to_odbc_type(column.data_type)
    from drivers import FakeOracleCursor

    from pysqlsync.dialect.oracle.data_types import sql_to_oracle_type

    return sql_to_oracle_type(FakeOracleCursor(None), column.data_type)


PARTS = [
    Part("insert", cases, run, quick=2500, thorough=40000),
    Part("large", lambda: cases(max_records=40), run, quick=60, thorough=1500),
    Part("several", lambda: several.histories(DRIVER_DIALECTS, kinds=("insert",), objects=False, max_ops=6), several.run, quick=400, thorough=8000),
]
