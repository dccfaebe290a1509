"""
C11: enumeration labels and lookup keys correspond one-to-one.

Tables whose columns refer to lookup tables are loaded several times, by rows and by objects, in batches; two tables may
share a lookup table, and labels may be added behind the tool's back. After every load each lookup table holds exactly
the labels it held before and those in the source, under the keys they had, and every row refers to its label.
"""

from hypothesis import strategies as st

import data as D
import schema as S
import several
from codec import dec, enc
from drivers import DRIVER_DIALECTS, run_async
from vh import Part, Result, check, check_equal

import pysqlsync.base as base

PROPERTY = "C11"
RULE = "a load refers to a label already present and to one that is not, or an earlier batch or load has added a label in use; in part several, the same operation on equally named tables in two schemas"
ASSUMPTIONS = [
    "labels are at most 64 characters (the documented size of the lookup table's column)",
    "the database compares labels exactly (in MySQL and Microsoft SQL Server this depends on the collation)",
    "RefDB (lib/refdb.py) executes merges like the real databases do",
]
LABELS = ["red", "Red", "green", "O'Reilly", "", " ", "ÄÖ", "1", "2", "a%b", "back\\slash", "NULL", "x" * 64]


def labels_of(spec, t):
    "Labels that may occur in a column."
    if t[0] == "enum":
        return [m[1] for m in D.enum_members(spec, t)]
    return sorted({D.enum_members(spec, t)[0][1], *LABELS[:6]})


@st.composite
def cases(draw, max_ops=5, max_records=6):
    o = draw(S.options(DRIVER_DIALECTS, auto_default=False))
    if draw(st.integers(0, 3)):
        o["enum_mode"] = None if o["dialect"] == "redshift" else "RELATION"  # the default of Redshift, which does not take it as an option
    em = S.effective(o)[0]
    spec = draw(D.tables(o, keys=("int", "identity", "text"), kinds=("extenum",) + (("enum",) if em == "RELATION" else ()), max_fields=3, second=True, unique=False, defaults=False))
    mod = spec["modules"][0]
    if draw(st.booleans()):
        # a reference to a table that looks like a lookup table
        main = D.fields_of(spec)
        if o.get("foreign_constraints", True):
            main.append({"name": "similar", "type": ["ref", 0, "T2"], "opt": True})
            mod["entities"][3]["fields"] = S.order_fields(main)
    if em != "RELATION":
        other = D.fields_of(spec, "Other")
        other[:] = [f for f in other if f["name"] != "color"]
    ops, counts, next_id = [], {D.MAIN: 0, "Other": 0}, {}
    for _ in range(draw(st.integers(1, max_ops))):
        kind = draw(st.sampled_from(["insert", "insert", "upsert", "foreign"]))
        if kind == "foreign":
            ops.append({"op": kind, "enum": draw(st.sampled_from(["Color", "Country"])), "label": draw(st.sampled_from(LABELS))})
            continue
        name = draw(st.sampled_from([D.MAIN, D.MAIN, "Other"]))
        fields = D.fields_of(spec, name)
        key = D.key_field(fields)
        n = draw(st.integers(0, max_records))
        if kind == "upsert":
            ids = draw(st.lists(st.integers(1, counts[name]), min_size=1, max_size=n + 1)) if counts[name] else []
        else:
            ids = list(range(counts[name] + 1, counts[name] + n + 1))
            counts[name] += n
        records = []
        for i in ids:
            r = {}
            for f in fields:
                if f.get("role"):
                    continue
                if f.get("opt") and draw(st.integers(0, 3)) == 0:
                    v = None
                elif f["type"][0] == "ref":
                    v = draw(D.values(f["type"], spec, o))
                else:
                    v = draw(st.sampled_from(labels_of(spec, f["type"])))
                r[f["name"]] = enc(v)
            records.append([i, r])
        ops.append(
            {
                "op": kind,
                "table": name,
                "objects": draw(st.booleans()),
                "members": draw(st.booleans()),
                "omit": D.omission(draw),
                "order": draw(st.integers(0, 5)),
                "batch": draw(st.sampled_from([1, 2, 3, 100])),
                "source": draw(st.sampled_from(D.SOURCES[:4])),
                "records": records,
            }
        )
    return {"opts": {**o, "initialize_tables": draw(st.booleans())}, "spec": spec, "ops": ops}


def lookups(ld):
    "Lookup tables by enumeration: {label: key}"
    out = {}
    for e in ("Color", "Country"):
        key = ld.key(e)
        if key not in ld.store.db.tables:
            continue
        entries = {}
        ids = set()
        for r in ld.rows(e):
            check(r["value"] is not None, lambda: f"lookup table {key} has an entry for NULL: {r}")
            check(r["value"] not in entries, lambda: f"lookup table {key} has several entries for {r['value']!r}")
            check(r["id"] not in ids, lambda: f"lookup table {key} has several entries with key {r['id']}")
            entries[r["value"]] = r["id"]
            ids.add(r["id"])
        out[e] = entries
    return out


def load(ld, op, model):
    b, spec, opts = ld.build, ld.spec, ld.opts
    name = op["table"]
    fields = D.fields_of(spec, name)
    key = D.key_field(fields)
    identity = key["role"] == "id"
    names = [f["name"] for f in fields]
    if op["op"] == "insert" and identity and not op["objects"]:
        names.remove(key["name"])
    if not op["objects"]:
        k = op["order"] % len(names)
        names = names[k:] + names[:k]
    by_name = {f["name"]: f for f in fields}
    decoded = [(i if identity else D.key_value(key["type"], i), {n: dec(x) for n, x in r.items()}) for i, r in op["records"]]
    if op["objects"]:
        items = [ld.object(fields, {**r, **({} if op["op"] == "insert" and identity else {key["name"]: k})}, name) for k, r in decoded]
        call = ld.context.insert_data if op["op"] == "insert" else ld.context.upsert_data
        run_async(call(b.cls(0, name), D.Source(op["source"], items).get()))
    else:
        types = tuple(D.row_type(b, by_name[n]["type"], op["members"]) for n in names)
        items = [tuple(k if n == key["name"] else D.to_row(b, spec, opts, by_name[n]["type"], r[n], op["members"]) for n in names) for k, r in decoded]
        call = ld.context.insert_rows if op["op"] == "insert" else ld.context.upsert_rows
        names, types, items = D.with_omission(op, names, types, items)
        run_async(call(ld.table(name), D.Source(op["source"], items).get(), field_types=types, field_names=names))
    for k, r in decoded:
        model[name, k] = {**r, key["name"]: k}
    return [(f["type"], r[f["name"]]) for _, r in decoded for f in fields if not f.get("role")]


def run(case):
    opts, spec = case["opts"], case["spec"]
    dialect = opts["dialect"]
    size = base.BATCH_SIZE
    interesting = False
    with S.Build(spec) as b:
        ld = D.Loader(spec, opts, b)
        wanted = lookups(ld)
        for e, entries in wanted.items():
            members = [str(m[1]) for m in D.enum_members(spec, ["enum", 0, e])]
            if opts["initialize_tables"]:
                check_equal(sorted(entries), sorted(members), f"labels of {e} after creation")
            else:
                check_equal(sorted(set(entries) - set(members)), [], f"labels of {e} after creation")
        similar = [dict(r) for r in ld.rows("T2")]
        model = {}
        for i, op in enumerate(case["ops"]):
            if op["op"] == "foreign":
                if op["enum"] in wanted and op["label"] not in wanted[op["enum"]]:
                    ld.store.db._do_insert(ld.key(op["enum"]), {"value": op["label"]})
                    wanted = lookups(ld)
                continue
            what = f"operation {i} ({op['op']} {len(op['records'])} record(s) into {op['table']})"
            base.BATCH_SIZE = op["batch"]
            try:
                used = load(ld, op, model)
            finally:
                base.BATCH_SIZE = size
            found = lookups(ld)
            old = new = False
            for e in found:
                labels = {str(v) for t, v in used if t[0] in ("enum", "extenum") and t[2] == e and v is not None}
                old = old or bool(labels & set(wanted[e]))
                new = new or bool(labels - set(wanted[e]))
                check_equal(sorted(found[e]), sorted(set(wanted[e]) | labels), f"labels of {e} after {what}")
                check_equal({k: v for k, v in found[e].items() if k in wanted[e]}, wanted[e], f"keys of former labels of {e} after {what}")
            interesting = interesting or old and new or len(op["records"]) > op["batch"] and new
            wanted = found
            check_equal([dict(r) for r in ld.rows("T2")], similar, f"rows of a table similar to a lookup table after {what}")
            check_rows(ld, model, what)
    return Result(interesting, [dialect, "/".join(sorted({t[0] for t in (f["type"] for n in (D.MAIN, "Other") for f in D.fields_of(spec, n))}))])


def check_rows(ld, model, what):
    for name in (D.MAIN, "Other"):
        fields = D.fields_of(ld.spec, name)
        key = D.key_field(fields)
        rows = ld.rows(name)
        expected = {k: r for (n, k), r in model.items() if n == name}
        check_equal(len(rows), len(expected), f"number of rows of {name} after {what}")
        for k, r in expected.items():
            hits = [x for x in rows if D.denotes(ld, key["type"], x[key["name"]], k)]
            check(len(hits) == 1, lambda: f"{len(hits)} rows of {name} with key {k!r} after {what}")
            for f in fields:
                check(D.denotes(ld, f["type"], hits[0][f["name"]], r[f["name"]]), lambda: f"{name}.{f['name']} of {k!r} holds {hits[0][f['name']]!r} for {r[f['name']]!r} after {what}; lookup {lookups(ld)}")


# a list of labels in one column


@st.composite
def list_cases(draw):
    # data for Redshift is text
    o = draw(S.options([d for d in DRIVER_DIALECTS if d != "redshift"], auto_default=False))
    o["enum_mode"], o["array_mode"] = "RELATION", "JSON"
    items = st.lists(st.sampled_from(LABELS[:5]), max_size=4)
    kind = draw(st.sampled_from(["list", "set"]))
    if kind == "set":
        items = st.lists(st.sampled_from(LABELS[:5]), max_size=4, unique=True)
    return {
        "opts": o,
        "kind": kind,
        "loads": draw(st.lists(st.lists(st.one_of(st.none(), items), min_size=1, max_size=5), min_size=1, max_size=3)),
        "batch": draw(st.sampled_from([1, 2, 100])),
        "members": draw(st.sampled_from([[["a", "red"], ["b", "blue"]], [["a", "green"], ["b", "x"]]])),
    }


def list_spec(members, kind):
    return {
        "modules": [
            {
                "ns": None,
                "enums": [{"name": "Color", "members": members}],
                "structs": [],
                "entities": [{"name": D.MAIN, "fields": [{"name": "id", "type": ["int"], "role": "pk"}, {"name": "one", "type": ["enum", 0, "Color"], "opt": True}, {"name": "many", "type": [kind, ["enum", 0, "Color"]], "opt": True}]}],
            }
        ]
    }


def run_list(case):
    "A column that holds keys of a lookup table for a list of labels (referenced by a constraint in the tracked model)."
    from pysqlsync.formation.object_types import ConstraintReference, ForeignConstraint
    from pysqlsync.model.id_types import LocalId

    opts = case["opts"]
    spec = list_spec(case["members"], case["kind"])
    size = base.BATCH_SIZE
    with S.Build(spec) as b:
        ld = D.Loader(spec, opts, b, initial=False)
        table = ld.table()
        lookup = ld.context.get_table(base.ClassRef(b.cls(0, "Color")))
        if not any(isinstance(c, ForeignConstraint) and c.foreign_columns == (LocalId("many"),) for c in table.constraints.values()):
            table.constraints.add(ForeignConstraint(LocalId("fk_many"), (LocalId("many"),), ConstraintReference(lookup.name, (LocalId("id"),))))
        seen, n = set(lookups(ld)["Color"]), 0
        known, fresh = False, False
        expected = []
        base.BATCH_SIZE = case["batch"]
        try:
            for load in case["loads"]:
                rows = []
                for items in load:
                    n += 1
                    rows.append((n, None if items is None else {"list": list, "set": set}[case["kind"]](items)))
                    expected.append(items)
                used = {x for items in load if items for x in items}
                known, fresh = known or bool(used & seen), fresh or bool(used - seen)
                seen |= used
                run_async(ld.context.insert_rows(table, rows, field_types=(int, {"list": list, "set": set}[case["kind"]]), field_names=("id", "many")))
        finally:
            base.BATCH_SIZE = size
        labels = lookups(ld)["Color"]
        check_equal(sorted(labels), sorted(seen), "labels in the lookup table")
        keys = {k: label for label, k in labels.items()}
        stored = [r["many"] for r in ld.rows()]
        check_equal(len(stored), len(expected), "number of rows")
        for s, items in zip(stored, expected):
            if items is None:
                check(s is None, lambda: f"{s!r} stored for NULL")
                continue
            check(isinstance(s, (list, tuple, set)) and all(k in keys for k in s), lambda: f"{s!r} stored for {items}; lookup {labels}")
            got = [keys[k] for k in s]
            if case["kind"] == "set":
                got, items = sorted(got), sorted(items)
            check_equal(got, items, "labels denoted by the stored keys")
    return Result(known and fresh, [opts["dialect"], case["kind"]])


def run_array(case):
    "An array of enumeration values where each enumeration is a lookup table: the column holds an array of keys."
    opts = case["opts"]
    spec = list_spec(case["members"], "list")
    with S.Build(spec) as b:
        ld = D.Loader(spec, opts, b, initial=False)
        run_async(ld.context.insert_rows(ld.table(), [(1, case["labels"])], field_types=(int, list), field_names=("id", "many")))
        (row,) = ld.rows()
        labels = {r["id"]: r["value"] for r in ld.rows("Color")}
        check([labels.get(k) for k in row["many"]] == case["labels"], lambda: f"array of keys of a lookup table holds {row['many']!r} for {case['labels']}")
    return Result(True, [])


PARTS = [
    Part("labels", cases, run, quick=1200, thorough=25000),
    Part("lists", list_cases, run_list, quick=250, thorough=5000),
    Part("array", None, run_array, quick=0, thorough=0),
    Part("several", lambda: several.histories(DRIVER_DIALECTS, kinds=("insert", "insert", "upsert"), labels=True, max_ops=6), several.run, quick=400, thorough=8000),
]
