"""
Histories on several tables in one context: modules mapped to different schemas define entities (and enumerations) of the
same names, and operations on them alternate. What is done to a table is compared with a dictionary for that table, and
every other table has to stay as it was.
"""

import dataclasses
import typing

from hypothesis import strategies as st

import data as D
import schema as S
from codec import dec, enc
from drivers import make_context, run_async
from vh import Result, check, check_equal

from pysqlsync.model.key_types import DEFAULT as UNSET

import pysqlsync.base as base

FIELDS = ["name", "order", "value", "x1", "flag", "note"]
NAMES = ["Main", "Item"]
TYPES = [["int"], ["int16"], ["str"], ["max", 16], ["bool"], ["uuid"], ["float"], ["decimal", 10, 2], ["date"]]
QUERIED = {"int": int, "int16": int, "max": str, "str": str}


@st.composite
def histories(draw, dialects, max_ops=9, kinds=("insert", "insert", "upsert", "delete", "query", "query"), objects=None, labels=False):
    o = draw(S.options(dialects, auto_default=False))
    if labels:
        o["enum_mode"] = None if o["dialect"] == "redshift" else "RELATION"
    n = draw(st.sampled_from([1, 2, 2, 3]))
    spaces = [None, "app", "core", "sales"] if o["dialect"] not in ("oracle",) else ["app", "core", "sales", None]
    spaces = draw(st.permutations(spaces))[:n]
    pool = draw(st.lists(st.sampled_from(FIELDS), min_size=2, max_size=4, unique=True))

    labels = labels or draw(st.integers(0, 2)) == 0
    mods = []
    for i in range(n):
        ents = []
        for name in NAMES if draw(st.booleans()) else NAMES[: draw(st.integers(1, 2))]:
            kind = draw(st.sampled_from(["pk", "pk", "id"]))
            fields = [{"name": "id", "type": ["int"], "role": kind}]
            # names are drawn from few, such that tables resemble one another
            for x in draw(st.permutations(pool))[: draw(st.integers(1, len(pool)))] + (["color"] if labels else []):
                t = ["enum", i, "Color"] if x == "color" else draw(st.sampled_from(TYPES))
                f = {"name": x, "type": t}
                if draw(st.integers(0, 2)) == 0:
                    f["opt"] = True
                fields.append(f)
            at = draw(st.integers(0, len(fields) - 1))
            fields = fields[1 : at + 1] + fields[:1] + fields[at + 1 :]
            if i and draw(st.booleans()):
                # declared like the class of another module
                fields = [{**f, "type": ["enum", i, "Color"] if f["type"][0] == "enum" else f["type"]} for f in draw(st.sampled_from(mods[0]["entities"]))["fields"]]
            ents.append({"name": name, "fields": fields})
        mods.append({"ns": spaces[i], "enums": [draw(S.enum_def("Color"))], "structs": [], "entities": ents})
    spec = {"modules": mods}
    tables = [(i, e["name"]) for i, m in enumerate(mods) for e in m["entities"]]
    live = {t: [] for t in tables}
    ops = []
    for _ in range(draw(st.integers(3, max_ops))):
        i, name = draw(st.sampled_from(tables))
        fields = fields_of(spec, i, name)
        identity = D.key_field(fields)["role"] == "id"
        kind = draw(st.sampled_from(list(kinds)))
        op = {"op": kind, "at": [i, name], "objects": draw(st.booleans()) if objects is None else objects, "source": draw(st.sampled_from(D.SOURCES[:4])), "batch": draw(st.sampled_from([1, 2, 100]))}
        known = live[(i, name)]
        if kind == "query":
            columns = [f["name"] for f in fields if f["type"][0] in QUERIED]
            op["names"] = draw(st.lists(st.sampled_from(columns), min_size=1, max_size=3, unique=True))
            ops.append(op)
            continue
        if kind == "delete":
            op["keys"] = draw(st.lists(st.sampled_from((known or [1]) + [9]), max_size=3))
            live[(i, name)] = [k for k in known if k not in op["keys"]]
            ops.append(op)
            continue
        if identity:
            if kind == "insert":
                first = 1 + max([0] + [k for x in ops if x["at"] == op["at"] and x["op"] == "insert" for k, _ in x["records"]])
                ids = list(range(first, first + draw(st.integers(1, 2))))
            elif not known:
                continue
            else:
                ids = draw(st.lists(st.sampled_from(known), min_size=1, max_size=2))
        elif kind == "insert":
            free = [k for k in range(1, 8) if k not in known]
            ids = draw(st.lists(st.sampled_from(free), min_size=1, max_size=2, unique=True)) if free else []
        else:
            ids = draw(st.lists(st.integers(1, 7), min_size=1, max_size=2))
        op["names"] = [f["name"] for f in fields if not (kind == "insert" and f.get("role") == "id")]
        if draw(st.booleans()):
            op["names"] = draw(st.permutations(op["names"]))
        op["records"] = [
            [k, {f["name"]: enc(None if f.get("opt") and draw(st.integers(0, 3)) == 0 else draw(D.values(f["type"], spec, o))) for f in fields if not f.get("role")}] for k in ids
        ]
        live[(i, name)] = sorted(set(known) | set(ids))
        ops.append(op)
    return {"opts": o, "spec": spec, "ops": ops}


def fields_of(spec, i, name):
    return next(e for e in spec["modules"][i]["entities"] if e["name"] == name)["fields"]


class Several:
    "A context on a fake driver whose tables have been created; `ctx` for `data.denotes`."

    def __init__(self, spec, opts, build):
        self.spec, self.opts, self.build = spec, opts, build
        self.store = D.Store(opts["dialect"])
        self.context = make_context(opts["dialect"], self.store, S.make_options(opts, build))
        run_async(self.context.create_objects(build.entities))

    def key(self, i, name):
        ns = self.spec["modules"][i]["ns"]
        if self.opts["dialect"] in S.PREFIXED:
            return ("", f"{ns}__{name}" if ns else name)
        return (ns or "", name)

    def rows(self, i, name):
        return self.store.db.tables[self.key(i, name)].rows

    def label(self, t, key):
        rows = [r for r in self.rows(t[1], t[2]) if r["id"] == key]
        return rows[0]["value"] if len(rows) == 1 else None


def compare(se, model, what):
    for (i, name), rows in model.items():
        fields = fields_of(se.spec, i, name)
        stored = se.rows(i, name)
        check_equal(sorted(r["id"] for r in stored), sorted(rows), f"keys of {se.key(i, name)} after {what}")
        for r in stored:
            for f in fields:
                if f.get("role"):
                    continue
                v = rows[r["id"]][f["name"]]
                check(D.denotes(se, f["type"], r[f["name"]], v), lambda: f"{f['name']} of row {r['id']} of {se.key(i, name)} holds {r[f['name']]!r} for {v!r} after {what}")


def result_type(fields, op):
    by_name = {f["name"]: f for f in fields}
    types = [QUERIED[by_name[n]["type"][0]] for n in op["names"]]
    if op["objects"]:
        types = [typing.Optional[t] if by_name[n].get("opt") else t for n, t in zip(op["names"], types)]
        return dataclasses.make_dataclass("Row", list(zip(op["names"], types)))
    if len(types) == 1:
        return types[0]
    return tuple[tuple(types)]


def query(se, i, name, op):
    fields = fields_of(se.spec, i, name)
    table = se.context.get_table(se.build.cls(i, name))
    columns = ", ".join(str(table.columns[n].name) for n in op["names"])
    kind = result_type(fields, op)
    found = run_async(se.context.query_all(kind, f"SELECT {columns} FROM {table.name}"))
    expected = [tuple(r[n] for n in op["names"]) for r in se.rows(i, name)]
    if op["objects"]:
        check(all(type(x) is kind for x in found), lambda: f"query for {kind} yields {found}")
        found = [tuple(getattr(x, n) for n in op["names"]) for x in found]
    elif len(op["names"]) == 1:
        found = [(x,) for x in found]
    check_equal([tuple(x) for x in found], expected, f"result of query {op['names']} of {se.key(i, name)}")


def modify(se, model, i, name, op):
    fields = fields_of(se.spec, i, name)
    by_name = {f["name"]: f for f in fields}
    key = D.key_field(fields)
    cls = se.build.cls(i, name)
    table = se.context.get_table(cls)
    if op["op"] == "delete":
        source = D.Source(op["source"], op["keys"]).get()
        if op["objects"]:
            run_async(se.context.delete_data(cls, source))
        else:
            run_async(se.context.delete_rows(table, int, source))
        for k in op["keys"]:
            model.pop(k, None)
        return
    records = [(k, {n: dec(x) for n, x in r.items()}) for k, r in op["records"]]
    if op["objects"]:
        unset = key["role"] == "id" and op["op"] == "insert"
        items = [cls(**{f["name"]: (UNSET if unset else k) if f.get("role") else D.to_object(se.build, se.spec, f["type"], r[f["name"]]) for f in fields}) for k, r in records]
        call = se.context.insert_data if op["op"] == "insert" else se.context.upsert_data
        run_async(call(cls, D.Source(op["source"], items).get()))
    else:
        names = tuple(op["names"])
        types = tuple(D.row_type(se.build, by_name[n]["type"]) for n in names)
        items = [tuple(k if n == key["name"] else D.to_row(se.build, se.spec, se.opts, by_name[n]["type"], r[n]) for n in names) for k, r in records]
        call = se.context.insert_rows if op["op"] == "insert" else se.context.upsert_rows
        run_async(call(table, D.Source(op["source"], items).get(), field_types=types, field_names=names))
    for k, r in records:
        model[k] = r


def run(case):
    opts, spec = case["opts"], case["spec"]
    size = base.BATCH_SIZE
    touched = []
    with S.Build(spec) as b:
        se = Several(spec, opts, b)
        model = {(i, e["name"]): {} for i, m in enumerate(spec["modules"]) for e in m["entities"]}
        for j, op in enumerate(case["ops"]):
            i, name = op["at"]
            what = f"operation {j} ({op['op']} of {'objects' if op['objects'] else 'rows'} at {se.key(i, name)})"
            base.BATCH_SIZE = op["batch"]
            try:
                if op["op"] == "query":
                    query(se, i, name, op)
                else:
                    modify(se, model[(i, name)], i, name, op)
            finally:
                base.BATCH_SIZE = size
            compare(se, model, what)
            touched.append((op["op"], i, name))
    alike = any(k == l and n == m and i != j for k, i, n in touched for l, j, m in touched)
    return Result(alike, [opts["dialect"]] + sorted({k for k, _, _ in touched}))
