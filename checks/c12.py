"""
C12: values sent to the database denote the values supplied.

For each type there are a required and an optional column; each value is sent through the row and through the object
interface. What the driver is handed is decoded by the convention of the column type (lib/data.py), not by the tool.
"""

from hypothesis import strategies as st

import data as D
import schema as S
from codec import dec, enc
from drivers import DRIVER_DIALECTS, run_async
from vh import Part, Result, check, check_equal

PROPERTY = "C12"
RULE = "at least one record has a value whose encoding differs from the value itself (UUID, network address, time, JSON, enumeration, reference, list)"
ASSUMPTIONS = [
    "date and time values without a time zone are in UTC; values with a time zone are in UTC",
    "members of structures are numbers, text, Booleans, UUIDs and structures; enumerations within structures have text labels",
    "floating-point numbers are finite; unsigned 64-bit integers fit a signed column (see C14)",
    "PostgreSQL: the driver takes mappings or tuples for composite types, and lists or sets for arrays",
]
ENCODED = ("uuid", "ipv4", "ipv6", "ip", "time", "struct", "enum", "extenum", "ref", "list", "set", "datetime")


@st.composite
def cases(draw, dialects=DRIVER_DIALECTS, kinds=None, max_types=4):
    o = draw(S.options(dialects, auto_default=False))
    spec = draw(D.tables(o, keys=("int", "identity", "uuid"), min_fields=1, max_fields=1, kinds=("number",)))
    by_kind = D.specs_of_types(o["dialect"], o)
    kinds = [k for k in by_kind if kinds is None or k in kinds]
    types = draw(st.lists(st.sampled_from(kinds).flatmap(lambda k: by_kind[k]), min_size=1, max_size=max_types))
    fields = D.fields_of(spec)
    key = D.key_field(fields)
    fields[:] = [key]
    for i, t in enumerate(types):
        fields.append({"name": f"r{i}", "type": t})
        fields.append({"name": f"o{i}", "type": t, "opt": True})
    records = []
    for i in range(draw(st.integers(1, 4))):
        r = {}
        for j, t in enumerate(types):
            v = draw(D.values(t, spec, o))
            r[f"r{j}"] = enc(v)
            r[f"o{j}"] = enc(None if draw(st.integers(0, 3)) == 0 else v if draw(st.booleans()) else draw(D.values(t, spec, o)))
        records.append(r)
    return {"opts": o, "spec": spec, "records": records, "op": draw(st.sampled_from(["insert", "upsert"])), "members": draw(st.booleans())}


def run(case):
    opts, spec = case["opts"], case["spec"]
    fields = D.fields_of(spec)
    by_name = {f["name"]: f for f in fields}
    key = D.key_field(fields)
    identity = key["role"] == "id"
    records = [{n: dec(x) for n, x in r.items()} for r in case["records"]]
    stored = {}
    ways = ("rows", "objects", "records") if plain(opts, spec, fields) else ("rows", "objects")
    for way in ways:
        with S.Build(spec) as b:
            ld = D.Loader(spec, opts, b)
            names = [f["name"] for f in fields]
            keys = [i + 1 if identity else D.key_value(key["type"], i + 1) for i in range(len(records))]
            op = case["op"]
            if identity and op == "upsert":
                # rows to update
                empty = {f["name"]: D_placeholder(ld, f) for f in fields if not f.get("role")}
                for k in keys:
                    ld.store.db._do_insert(ld.key(), dict(empty))
            with_key = not identity or op == "upsert"
            if way == "rows":
                names = [n for n in names if with_key or n != key["name"]]
                types = tuple(D.row_type(b, by_name[n]["type"], case["members"]) for n in names)
                rows = [tuple(k if n == key["name"] else D.to_row(b, spec, opts, by_name[n]["type"], r[n], case["members"]) for n in names) for k, r in zip(keys, records)]
                call = ld.context.insert_rows if op == "insert" else ld.context.upsert_rows
                run_async(call(ld.table(), rows, field_types=types, field_names=tuple(names)))
            elif way == "records":
                # statements and records that a user passes to the database
                items = [ld.object(fields, {**r, **({key["name"]: k} if with_key else {})}) for k, r in zip(keys, records)]
                g = ld.context.connection.generator
                skip = identity and op == "insert"
                sql = g.get_dataclass_insert_stmt(ld.main) if op == "insert" else g.get_dataclass_upsert_stmt(ld.main)
                singles = [g.get_dataclass_as_record(ld.main, item, skip_identity=skip) for item in items]
                check_equal(list(g.get_dataclasses_as_records(ld.main, iter(items), skip_identity=skip)), singles, "records, together and one by one")
                run_async(ld.context.execute_all(sql, singles))
            else:
                items = [ld.object(fields, {**r, **({key["name"]: k} if with_key else {})}) for k, r in zip(keys, records)]
                call = ld.context.insert_data if op == "insert" else ld.context.upsert_data
                run_async(call(ld.main, items))
            rows = ld.rows()
            check_equal(len(rows), len(records), f"number of rows stored through {way}")
            for k, r, row in zip(keys, records, rows):
                check(D.denotes(ld, key["type"], row[key["name"]], k), lambda: f"key {k!r} of type {key['type']} arrives as {row[key['name']]!r} through {way}")
                for f in fields:
                    if f.get("role"):
                        continue
                    v, s = r[f["name"]], row[f["name"]]
                    check(D.denotes(ld, f["type"], s, v), lambda: f"{way}: value {v!r} of type {f['type']} ({'optional' if f.get('opt') else 'required'}) arrives as {s!r}")
                    check(v is not None or s is None, "NULL")
            stored[way] = rows
    used = {f["type"][0] for f in fields if not f.get("role")}
    some = any(by_name[n]["type"][0] in ENCODED and v is not None for r in records for n, v in r.items())
    return Result(some, [opts["dialect"], case["op"], *ways[2:], *sorted(used)])


def plain(opts, spec, fields):
    "The value that a column stores can be told from the object alone: there is no lookup table."
    text = str([f["type"] for f in fields])
    return "extenum" not in text and not (S.effective(opts)[0] == "RELATION" and "'enum'" in text)


def D_placeholder(ld, f):
    "Something to be overwritten: a value that the column takes, if it must have one."
    if f.get("opt"):
        return None
    t = f["type"]
    if t[0] == "ref":
        return D.native_key(ld.opts["dialect"], D.KEYS[t[2]][1][0])
    if t[0] == "extenum" or t[0] == "enum" and S.effective(ld.opts)[0] == "RELATION":
        rows = ld.rows(t[2])
        if not rows:
            ld.store.db._do_insert(ld.key(t[2]), {"value": D.enum_members(ld.spec, t)[0][1]})
        return rows[0]["id"]
    if t[0] == "enum":
        v = D.enum_members(ld.spec, t)[0][1]
        return v if S.effective(ld.opts)[0] == "CHECK" else str(v)
    if t[0] == "literal":
        return t[1][0]
    return 0


PARTS = [
    Part("values", cases, run, quick=1500, thorough=30000),
    Part("encoded", lambda: cases(kinds=("moment", "binary", "enum", "extenum", "struct", "list", "ref")), run, quick=1000, thorough=20000),
]
