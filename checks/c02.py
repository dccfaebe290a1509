"""
C02: migration turns any existing schema into exactly the target schema.

A source schema is created on the reference database; a target schema is derived from it by edits (or drawn afresh). The
migration script made by the code under test is executed; afterwards the database must hold exactly the target schema.
"""

import copy

from hypothesis import strategies as st

import edits
import migrate
import schema as S
from vh import Part, Result, check

PROPERTY = "C02"
RULE = "the migration script has at least one statement and changes the schema of the reference database"
ASSUMPTIONS = [
    "RefDB (lib/refdb.py) accepts what the real databases accept",
    "a change of a column's type is one that the database can make in place (wider integer, longer text, higher precision)",
    "names of default constraints in Microsoft SQL Server (df_<column>) are not required to be unique (see C01)",
    "entries of lookup tables are data, not schema",
    "Redshift, Snowflake and Trino take the general forms of ALTER TABLE (see C01); a description in Snowflake stays as it was created",
]


@st.composite
def cases(draw, kinds=edits.EDITS, max_edits=5, dialects=S.RELATIONAL, **kw):
    o = draw(S.options(dialects))
    source = draw(S.schemas(o, **kw))
    return {"opts": o, "source": source, "target": draw(edits.edited(o, source, max_edits, kinds))}


@st.composite
def members(draw):
    "Structures within structures, used by columns or not, with changes to their members."
    o = draw(S.options(("postgresql",), struct_mode="TYPE", array_mode=draw(st.sampled_from([None, "ARRAY", "JSON"]))))
    source = draw(S.schemas(o, max_modules=2, max_entities=2, min_entities=1))
    i = draw(st.integers(0, len(source["modules"]) - 1))
    small = st.sampled_from([["int16"], ["int32"], ["float32"], ["int"], ["str"]])
    inner = {"name": "Inner", "fields": [{"name": n, "type": draw(small)} for n in ("a", "b")[: draw(st.integers(1, 2))]]}
    outer = {"name": "Outer", "fields": [{"name": "n", "type": draw(small)}, {"name": "i", "type": draw(st.sampled_from([["struct", i, "Inner"], ["list", ["struct", i, "Inner"]], ["int16"]]))}]}
    source["modules"][i]["structs"] += [inner, outer]
    for m in source["modules"]:
        for e in m["entities"]:
            if draw(st.booleans()):
                t = ["struct", i, draw(st.sampled_from(["Inner", "Outer"]))]
                e["fields"] = S.order_fields([{"name": "payload", "type": ["list", t] if draw(st.integers(0, 3)) == 0 else t}] + e["fields"])
    target = copy.deepcopy(source)
    for _ in range(draw(st.integers(1, 2))):
        s = draw(st.sampled_from([s for s in target["modules"][i]["structs"] if s["name"] in ("Inner", "Outer")]))
        f = draw(st.sampled_from(s["fields"]))
        change = draw(st.sampled_from(["type", "type", "add", "drop", "unuse"]))
        if change == "type" and edits.WIDER.get(f["type"][0]):
            f["type"] = draw(st.sampled_from(edits.WIDER[f["type"][0]]))
        elif change == "add" and all(x["name"] != "extra" for x in s["fields"]):
            s["fields"].append({"name": "extra", "type": draw(small)})
        elif change == "drop" and len(s["fields"]) > 1:
            s["fields"].remove(f)
        elif change == "unuse":
            e = draw(st.sampled_from([e for m in target["modules"] for e in m["entities"]] or [None]))
            if e is not None:
                e["fields"] = [x for x in e["fields"] if x["name"] != "payload"]
    return {"opts": o, "source": source, "target": target}


@st.composite
def unrelated(draw):
    o = draw(S.options())
    source, target = draw(S.schemas(o, max_modules=2)), draw(S.schemas(o, max_modules=2))
    return {"opts": o, "source": source, "target": align(source, target)}


@st.composite
def columns(draw):
    o = draw(S.options())
    source, target = draw(edits.columns(o))
    return {"opts": o, "source": source, "target": target}


def align(source, target):
    "Changes the target such that columns of both schemas have the type and key role that they have in the source."
    for m in target["modules"]:
        for n in source["modules"]:
            if m["ns"] != n["ns"]:
                continue
            for kind in ("structs", "entities"):
                for c in m[kind]:
                    for e in n[kind]:
                        if c["name"] != e["name"]:
                            continue
                        old = {f["name"]: f for f in e["fields"]}
                        if kind == "entities":
                            c["fields"] = [copy.deepcopy(e["fields"][0])] + [f for f in c["fields"][1:] if f["name"] != e["fields"][0]["name"]]
                        c["fields"] = [f for i, f in enumerate(c["fields"]) if f["name"] not in old or f["type"] == old[f["name"]]["type"] and (f["type"][0] in S.SIMPLE or not i)]
            for c in m["enums"]:
                for e in n["enums"]:
                    if c["name"] == e["name"]:
                        c["members"] = copy.deepcopy(e["members"])
    return edits.prune(target)


def run(case):
    opts = case["opts"]
    dialect = opts["dialect"]
    FormationError = migrate.formation_error()
    with S.Build(case["source"]) as b:
        g, db = migrate.created(opts, b)
        source_snap = db.snapshot()
    with S.Build(case["target"]) as b:
        model = migrate.target_model(opts, b)
        wanted = S.expected(model, dialect)
        reasons = migrate.refusal_reasons(opts, source_snap, wanted)
        try:
            sql = g.get_mutate_stmt(model)
        except FormationError as e:
            check(reasons, lambda: f"migration refused without a reason: {e!r} {e.__cause__!r}")
            return Result(False, [dialect, "refused"])
        must = [r for r in reasons if r[0] in ("enum", "constraint", "identity", "pk")]
        check(not must, lambda: f"migration should be refused: {must}\n{sql}")
        if sql is not None:
            migrate.execute(db, sql)
        snap = db.snapshot()
        if dialect == "snowflake" and not case.get("comments"):
            for s in (snap, wanted, source_snap):
                migrate.silence(s)
        d = S.diff(snap, wanted)
        check(not d, lambda: "schema after migration differs from target: " + "; ".join(d[:5]) + "\n" + str(sql))
        changed = source_snap != wanted
        return Result(bool(sql) and changed, [dialect, "/".join(S.effective(opts)), "changed" if changed else "same"])


PARTS = [
    Part("edits", cases, run, quick=1400, thorough=15000),
    Part("single", lambda: cases(max_edits=1), run, quick=1000, thorough=8000),
    Part("members", members, run, quick=500, thorough=6000),
    Part("columns", columns, run, quick=1000, thorough=10000),
    Part("others", lambda: cases(max_edits=3, dialects=("redshift", "snowflake", "trino")), run, quick=600, thorough=6000),
    Part("unrelated", unrelated, run, quick=500, thorough=5000),
]
