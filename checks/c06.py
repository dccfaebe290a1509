"""
C06: migration keeps the data it was not asked to remove.

The source schema is populated on the reference database, and the migration script is executed on it. Afterwards the rows
of every kept table are compared column by column with those before; where an enumeration turned into a reference to a
lookup table, the labels are resolved through that table.
"""

import copy

from hypothesis import strategies as st

import edits
import migrate
import schema as S
from vh import Part, Result, check

PROPERTY = "C06"
RULE = "the migration has at least one statement and there are rows in at least one kept table"
ASSUMPTIONS = [
    "RefDB (lib/refdb.py) accepts what the real databases accept, and keeps the values of a column whose type is widened",
    "columns added to tables with rows are optional or have a default (the databases refuse other ones)",
    "labels of an enumeration kept as restricted text are taken over into the lookup table as far as rows use them",
]

KINDS = [k for k in edits.EDITS if k not in ("drop_module",)] + ["add_field", "drop_field", "widen", "opt", "reorder_fields"]


@st.composite
def cases(draw):
    o = draw(S.options())
    source = draw(S.schemas(o, min_entities=1))
    target = edits.keep_rows(source, draw(edits.edited(o, source, 4, KINDS)))
    return {"opts": o, "source": source, "target": target, "seed": draw(st.integers(0, 99))}


MIGRATIONS = [("postgresql", "TYPE"), ("postgresql", "CHECK"), ("mysql", "INLINE"), ("mysql", "CHECK")]


@st.composite
def enum_cases(draw):
    d, m = draw(st.sampled_from(MIGRATIONS))
    o = draw(S.options((d,), enum_mode=m, array_mode="JSON" if d == "mysql" else draw(st.sampled_from(["JSON", "ARRAY"]))))
    # names of lookup tables of a mode do not concern fields of enumerations in structures
    o["struct_mode"] = "JSON"
    source = draw(S.schemas(o, min_entities=1))
    for i, mod in enumerate(source["modules"]):
        for e in mod["entities"]:
            e["fields"] = [f for f in e["fields"] if f["type"][0] not in ("list", "set") or f["type"][1][0] not in ("enum",)]
    m0 = source["modules"][0]
    m0["enums"] = [e for e in m0["enums"] if e["name"] != "Level"]
    vals = draw(st.lists(st.sampled_from(S.LABELS + ["back\\slash", "it's"]), min_size=2, max_size=4, unique=True))
    m0["enums"].append({"name": "Level", "members": [[f"m{k}", v] for k, v in enumerate(vals)]})
    for e in draw(st.lists(st.sampled_from(m0["entities"]), min_size=1, max_size=2, unique_by=lambda e: e["name"])):
        names = draw(st.lists(st.sampled_from(["level", "Rank", "grade"]), min_size=1, max_size=2, unique=True))
        e["fields"] = S.order_fields(e["fields"][:1] + [{"name": n, "type": ["enum", 0, "Level"], "opt": draw(st.booleans())} for n in names] + e["fields"][1:])
    # known finding: enumerations of integers are not migrated
    for mod in source["modules"]:
        for e in mod["enums"]:
            if isinstance(e["members"][0][1], int):
                for k, x in enumerate(e["members"]):
                    x[1] = f"label {x[1]}"
    target = source
    others = [m for m in source["modules"][1:] if m["entities"] and all(e["name"] != "Level" for e in m["enums"])]
    if others and draw(st.booleans()):
        # an equally named enumeration in another schema, which is no longer used
        m1 = draw(st.sampled_from(others))
        m1["enums"].append({"name": "Level", "members": [["a", "low"], ["b", "high"]]})
        e = draw(st.sampled_from(m1["entities"]))
        target = copy.deepcopy(source)
        e["fields"] = S.order_fields(e["fields"] + [{"name": "level", "type": ["enum", source["modules"].index(m1), "Level"], "opt": draw(st.booleans())}])
    elif draw(st.booleans()):
        target = edits.keep_rows(source, draw(edits.edited(o, source, 2, ["add_field", "opt", "add_entity", "class_doc", "add_label"])))
    return {"opts": o, "source": source, "target": target, "seed": draw(st.integers(0, 99)), "target_mode": "RELATION"}


def run(case):
    opts = dict(case["opts"])
    dialect = opts["dialect"]
    FormationError = migrate.formation_error()
    with S.Build(case["source"]) as b:
        g, db = migrate.created(opts, b)
    migrate.populate(db, case["seed"])
    before, rows = db.snapshot(), migrate.contents(db)
    if case.get("target_mode"):
        opts["enum_mode"] = case["target_mode"]
    with S.Build(case["target"]) as b:
        model = migrate.target_model(opts, b)
        wanted = S.expected(model, dialect)
    try:
        sql = g.get_mutate_stmt(model)
    except FormationError as e:
        check(migrate.refusal_reasons(opts, before, wanted), lambda: f"migration refused without a reason: {e!r} {e.__cause__!r}")
        return Result(False, [dialect, "refused"])
    if sql is not None:
        migrate.execute(db, sql)
    after = db.snapshot()
    labels = {dialect, "enum" if case.get("target_mode") else "edit"}
    populated = 0
    for key, old_rows in rows.items():
        name = ".".join(key)
        if name not in wanted["tables"]:
            continue
        check(key in db.tables, lambda: f"table {name} is gone\n{sql}")
        new_rows = db.tables[key].rows
        check(len(new_rows) == len(old_rows), lambda: f"{name} had {len(old_rows)} rows, now {len(new_rows)}\n{sql}")
        populated += bool(old_rows)
        t0, t1 = before["tables"][name], wanted["tables"][name]
        for col, c0 in t0["columns"].items():
            c1 = t1["columns"].get(col)
            if c1 is None:
                continue
            if c1["type"] == c0["type"] or not (migrate.is_text(c0["type"], before) and migrate.is_integer(c1["type"])):
                for r0, r1 in zip(old_rows, new_rows):
                    check(r0[col] == r1[col], lambda: f"{name}.{col}: {r0[col]!r} became {r1[col]!r}\n{sql}")
                continue
            # text became a key of a lookup table
            fk = [k for k in t1["constraints"].values() if k["kind"] == "fk" and k["cols"] == [col]]
            check(fk, lambda: f"{name}.{col} has no lookup table")
            lookup = db.tables[tuple(fk[0]["ref"])]
            values = {r["id"]: r["value"] for r in lookup.rows}
            check(len(set(values.values())) == len(lookup.rows), lambda: f"duplicate entries in lookup table {lookup.rows}")
            for r0, r1 in zip(old_rows, new_rows):
                got = None if r1[col] is None else values.get(r1[col], "(no such entry)")
                check(got == r0[col], lambda: f"{name}.{col}: {r0[col]!r} became {r1[col]!r}, which is {got!r}\n{sql}")
                if r0[col] is not None:
                    labels.add("label migrated")
                else:
                    labels.add("null migrated")
            # labels of an enumeration type are all taken over
            if not c0["type"].lower().startswith(("char", "varchar")):
                declared = declared_labels(before, c0["type"])
                missing = set(declared) - set(values.values())
                check(not missing, lambda: f"labels {missing} of {c0['type']} were lost\n{sql}")
            left = {x for x in db.tables[key].cols if x not in t1["columns"]}
            check(not left, lambda: f"columns left over in {name}: {left}")
    d = S.diff(after, wanted)
    check(not d, lambda: "schema after migration differs from target: " + "; ".join(d[:5]) + "\n" + str(sql))
    return Result(bool(sql) and populated > 0, sorted(labels))


def declared_labels(snap, type_text):
    import sqllex

    name = type_text.strip('"').replace('" . "', ".")
    for n in (name, "." + name):
        if n in snap["types"]:
            return snap["types"][n]["enum"]
    # inline enumeration
    return [v for k, v in sqllex.tokenize(type_text, "oracle") if k == "str"]


PARTS = [
    Part("keep", cases, run, quick=1500, thorough=12000),
    Part("enum", enum_cases, run, quick=1250, thorough=10000),
]
