"""
C04: removal permissions are honoured.

A populated source schema is migrated to a target schema that lacks some of its objects, under random permissions. Every
object whose removal is forbidden must be intact afterwards: definition, constraints, and rows. Objects that neither schema
knows about, in schemas that neither mentions, must not change at all.
"""

from hypothesis import strategies as st

import edits
import migrate
import schema as S
from vh import Part, Result, check

PROPERTY = "C04"
RULE = "the target lacks at least one object of the source whose removal the options forbid"
ASSUMPTIONS = [
    "RefDB (lib/refdb.py) accepts what the real databases accept",
    "permission to drop a namespace includes all objects within it (as documented), whatever the other permissions say",
    "a namespace is dropped when the target has no class in it; in dialects without schemas, all classes are in one namespace",
]

KINDS = ["drop_entity", "drop_field", "drop_struct", "drop_enum", "drop_module", "drop_module", "add_entity", "add_field", "opt", "drop_entity"]


TYPE_KINDS = ["drop_enum", "drop_enum", "drop_struct", "drop_struct", "drop_field", "drop_module", "drop_entity", "add_label"]


@st.composite
def cases(draw, dialects=S.RELATIONAL, kinds=KINDS, **fixed):
    sync = {f"allow_drop_{k}": draw(st.sampled_from([True, False, False])) for k in ("enum", "struct", "table", "namespace")}
    o = draw(S.options(dialects, sync=sync, **fixed))
    source = draw(S.schemas(o, min_entities=draw(st.sampled_from([1, 2]))))
    target = edits.keep_rows(source, draw(edits.edited(o, source, 4, kinds)))
    return {"opts": o, "source": source, "target": target, "seed": draw(st.integers(0, 99)), "alien": draw(st.booleans())}


def alien(db, dialect):
    "Objects of somebody else."
    if dialect in ("mysql", "oracle"):
        t = '"alien__Person"'
    else:
        db.schemas.add("alien")
        t = '"alien"."Person"'
    db.execute(f'CREATE TABLE {t} (\n"id" integer NOT NULL,\n"name" varchar(20),\nCONSTRAINT "pk_alien" PRIMARY KEY ("id")\n);'.replace("varchar", "varchar2" if dialect == "oracle" else "varchar"))
    if dialect == "postgresql":
        db.execute("""CREATE TYPE "alien"."Color" AS ENUM ('x', 'y');""")


def run(case):
    opts = case["opts"]
    dialect, sync = opts["dialect"], opts["sync"]
    FormationError = migrate.formation_error()
    with S.Build(case["source"]) as b:
        g, db = migrate.created(opts, b)
    if case["alien"]:
        alien(db, dialect)
    migrate.populate(db, case["seed"])
    before, rows = db.snapshot(), migrate.contents(db)
    with S.Build(case["target"]) as b:
        model = migrate.target_model(opts, b)
        wanted = S.expected(model, dialect)
    try:
        sql = g.get_mutate_stmt(model)
    except FormationError as e:
        check(migrate.refusal_reasons(opts, before, wanted), lambda: f"migration refused without a reason: {e!r} {e.__cause__!r}")
        return Result(False, [dialect, "refused"])
    if sql is not None:
        migrate.execute(db, sql)
    after = db.snapshot()
    tgt_ns = {ns.name.local_id for ns in model.namespaces.values()}
    kept = 0
    labels = {dialect}
    for kind in ("types", "tables"):
        for name, d in before[kind].items():
            if name in wanted[kind]:
                continue
            key = tuple(name.split(".", 1))
            foreign = "alien" in name
            what = "table" if kind == "tables" else ("enum" if "enum" in d else "struct")
            dropped_ns = key[0] not in tgt_ns and not foreign
            # a lookup or join table is a table
            permitted = not foreign and (sync["allow_drop_namespace"] if dropped_ns else sync[f"allow_drop_{what}"])
            if permitted:
                continue
            kept += 1
            labels.add("alien" if foreign else ("namespace" if dropped_ns else what))
            check(name in after[kind], lambda: f"{what} {name} was removed\n{sql}")
            d2 = after[kind][name]
            diff = S.diff(d2, d)
            # a type that a retained object mentions may have got further labels
            check(not diff, lambda: f"{what} {name} was changed: {'; '.join(diff)}\n{sql}")
            if kind == "tables":
                check(db.tables[key].rows == rows[key], lambda: f"rows of {name} were changed: {rows[key]} -> {db.tables[key].rows}\n{sql}")
    if not sync["allow_drop_namespace"] or case["alien"]:
        for ns in before["schemas"]:
            if ns not in wanted["schemas"] and (ns == "alien" or not sync["allow_drop_namespace"]):
                check(ns in after["schemas"], lambda: f"schema {ns} was removed\n{sql}")
                kept += ns != "alien"
    return Result(kept > int(case["alien"]), sorted(labels))


PARTS = [
    Part("drop", cases, run, quick=1400, thorough=12000),
    Part("types", lambda: cases(("postgresql",), TYPE_KINDS, enum_mode="TYPE", struct_mode="TYPE"), run, quick=1000, thorough=10000),
]
