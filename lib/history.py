"""
Histories of insert, upsert and delete on one table, compared with a dictionary after every operation.

A history is a JSON list of operations; keys are given by index (``data.key_value``), or, for identity columns, by the
number that the database assigns. Values of unique columns belong to a key, such that no two rows ever compete for one.
"""

from hypothesis import strategies as st

import data as D
import schema as S
from codec import dec, enc
from drivers import run_async
from vh import Result, check, check_equal

import pysqlsync.base as base


def omittable(f, opts):
    return not f.get("role") and D.omittable(f, opts)


def unique_value(draw, f, i):
    if f.get("opt") and draw(st.integers(0, 3)) == 0:
        return None
    return D.key_value(f["type"], i)


@st.composite
def histories(draw, dialects, keys=("int", "identity", "uuid", "text"), ops=("insert", "upsert", "delete"), max_ops=6, kinds=None, max_keys=6, max_records=4, objects_only=False, unique=False):
    o = draw(S.options(dialects, auto_default=False))
    spec = draw(D.tables(o, keys=keys, kinds=kinds))
    fields = D.fields_of(spec)
    if unique and not any(f.get("unique") and not f.get("opt") for f in fields):
        fields.insert(0, {"name": "tag", "type": draw(st.sampled_from([["max", 16], ["int"]])), "unique": True})
    key = D.key_field(fields)
    identity = key["role"] == "id"
    live, next_id = set(), 1
    out = []

    def record(names, i, objects):
        r = {}
        for f in fields:
            if f["name"] not in names or f.get("role"):
                continue
            if objects and f.get("default") is not None and draw(st.integers(0, 3)) == 0:
                continue  # the object takes the default of the class
            if f.get("unique"):
                v = unique_value(draw, f, i)
            elif f.get("opt") and draw(st.integers(0, 3)) == 0:
                v = None
            else:
                v = draw(D.values(f["type"], spec, o))
            r[f["name"]] = enc(v)
        return r

    first = True
    for _ in range(draw(st.integers(2, max_ops))):
        kind = "insert" if first and "insert" in ops and draw(st.integers(0, 3)) else draw(st.sampled_from(list(ops)))
        first = False
        if kind == "insert" and o["dialect"] == "mysql" and any(x["op"] == "match" for x in out):
            continue  # numbers for new rows are no longer consecutive
        objects = objects_only or draw(st.booleans())
        if kind == "match":
            # no keys: rows are identified by their value in a unique column
            sole = [f["name"] for f in fields if f.get("unique") and not f.get("opt")]
            if not sole or not live or o["dialect"] == "mysql" and not (identity and len(sole) == 1):
                continue
            sole = draw(st.sampled_from(sole))
            rest = [f["name"] for f in fields if not f.get("unique") and not f.get("role") and not (omittable(f, o) and draw(st.booleans()))]
            names = draw(st.permutations([sole] + rest))
            ids = draw(st.lists(st.sampled_from(sorted(live)), min_size=1, max_size=max_records))
            out.append({"op": "match", "objects": False, "batch": draw(st.sampled_from([1, 2, 100])), "source": draw(st.sampled_from(D.SOURCES)), "omit": D.omission(draw), "names": names, "records": [[i, record(names, i, False)] for i in ids]})
            continue
        op = {"op": kind, "objects": objects, "batch": draw(st.sampled_from([1, 2, 3, 100])), "source": draw(st.sampled_from(D.SOURCES[:4] if objects or kind == "delete" else D.SOURCES))}
        if kind == "delete":
            pool = st.sampled_from(sorted(live) * 2 + [max_keys + 1, draw(st.integers(1, max_keys))])
            op["keys"] = draw(st.lists(pool, min_size=0, max_size=max_records))
            live -= set(op["keys"])
            out.append(op)
            continue
        if objects:
            names = [f["name"] for f in fields]
        else:
            names = [f["name"] for f in fields if not (omittable(f, o) and draw(st.booleans()))]
            if identity and names == [key["name"]]:
                names += [next(f["name"] for f in fields if not f.get("role"))]
            names = draw(st.permutations(names))
            op["omit"] = D.omission(draw)
        if kind == "insert":
            if identity:
                names = [n for n in names if n != key["name"]]
                if not names:
                    continue
                ids = list(range(next_id, next_id + draw(st.integers(1, min(max_records, 3)))))
                next_id += len(ids)
            else:
                free = [i for i in range(1, max_keys + 1) if i not in live]
                ids = draw(st.lists(st.sampled_from(free), unique=True, min_size=1, max_size=max_records)) if free else []
            live |= set(ids)
        elif identity:
            ids = draw(st.lists(st.sampled_from(sorted(live)), max_size=max_records)) if live else []
        else:
            ids = draw(st.lists(st.sampled_from(sorted(live) * 2 + list(range(1, max_keys + 1))), max_size=max_records))
            live |= set(ids)
        op["names"] = names
        op["records"] = [[i, record(names, i, objects)] for i in ids]
        out.append(op)
    return {"opts": o, "spec": spec, "ops": out}


class Default:
    def __repr__(self):
        return "DEFAULT"


DEFAULT = Default()


def compare(ld, fields, model, what):
    key = D.key_field(fields)
    rows = list(ld.rows())
    cols = ld.store.db.tables[ld.key()].cols
    check_equal(len(rows), len(model), f"number of rows after {what}; keys {list(model)}")
    for k, values in model.items():
        hits = [r for r in rows if D.denotes(ld, key["type"], r[key["name"]], k)]
        check(len(hits) == 1, lambda: f"{len(hits)} rows with key {k!r} after {what}; rows {rows}")
        for f in fields:
            if f.get("role"):
                continue
            stored, v = hits[0][f["name"]], values[f["name"]]
            if v is DEFAULT:
                check_equal(stored, ld.store.db._default_value(cols[f["name"]]), f"column {f['name']} of row {k!r} (never supplied) after {what}")
            else:
                check(D.denotes(ld, f["type"], stored, v), lambda: f"column {f['name']} of row {k!r} holds {stored!r} for {v!r} after {what}")


def key_of(fields, i):
    key = D.key_field(fields)
    return i if key["role"] == "id" else D.key_value(key["type"], i)


def others(ld):
    return {name: [dict(r) for r in ld.rows(name)] for name in D.KEYS}


def apply(ld, fields, model, op):
    "Performs an operation by the code under test, and on the model."
    b, spec, opts = ld.build, ld.spec, ld.opts
    by_name = {f["name"]: f for f in fields}
    key = D.key_field(fields)
    size = base.BATCH_SIZE
    base.BATCH_SIZE = op["batch"]
    try:
        if op["op"] == "delete":
            items = [key_of(fields, i) for i in op["keys"]]
            source = D.Source(op["source"], items)
            if op["objects"]:
                run_async(ld.context.delete_data(ld.main, source.get()))
            else:
                run_async(ld.context.delete_rows(ld.table(), D.ROW_TYPES[key["type"][0]], source.get()))
            for k in items:
                model.pop(k, None)
            return source
        names = op["names"]
        decoded = [(key_of(fields, i), {n: dec(x) for n, x in r.items()}) for i, r in op["records"]]
        if op["objects"]:
            items = [ld.object(fields, {**r, **({} if op["op"] == "insert" and key["role"] == "id" else {key["name"]: k})}) for k, r in decoded]
            source = D.Source(op["source"], items)
            call = ld.context.insert_data if op["op"] == "insert" else ld.context.upsert_data
            run_async(call(ld.main, source.get()))
        else:
            types = tuple(D.row_type(b, by_name[n]["type"]) for n in names)
            items = [tuple(k if n == key["name"] else D.to_row(b, spec, opts, by_name[n]["type"], r[n]) for n in names) for k, r in decoded]
            names, types, items = D.with_omission(op, names, types, items)
            source = D.Source(op["source"], items)
            call = ld.context.insert_rows if op["op"] == "insert" else ld.context.upsert_rows
            run_async(call(ld.table(), source.get(), field_types=types, field_names=names))
        for k, r in decoded:
            if op["objects"]:
                r = {**{f["name"]: D.default_value(f, spec) for f in fields if not f.get("role") and f["name"] not in r}, **r}
            old = model.get(k, {f["name"]: DEFAULT for f in fields if not f.get("role")})
            model[k] = {**old, **r}
        return source
    finally:
        base.BATCH_SIZE = size


def run(case):
    opts, spec = case["opts"], case["spec"]
    fields = D.fields_of(spec)
    labels = [opts["dialect"], D.key_field(fields)["type"][0]]
    hits = 0
    with S.Build(spec) as b:
        ld = D.Loader(spec, opts, b)
        before = others(ld)
        model = {}
        for i, op in enumerate(case["ops"]):
            keys = op["keys"] if op["op"] == "delete" else [k for k, _ in op["records"]]
            known = [k for k in keys if key_of(fields, k) in model]
            if op["op"] != "insert" and known and (len(known) < len(model) or op["op"] == "upsert"):
                hits += 1
            source = apply(ld, fields, model, op)
            what = f"operation {i} ({op['op']} of {'objects' if op['objects'] else 'rows'} {keys})"
            check(source.started <= 1, lambda: f"source has been iterated {source.started} times by {what}")
            compare(ld, fields, model, what)
            check_equal(others(ld), before, f"rows of other tables after {what}")
            if op["op"] != "insert" and known:
                labels.append(op["op"] + (" objects" if op["objects"] else " rows"))
    return Result(hits > 0, labels)
