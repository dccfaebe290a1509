"""
C05: impossible migrations and unsupported options are refused, not mangled.

Migrations that contain a change the tool cannot express must raise a formation error and leave the generator's state as
it was (so that no statement reaches the database and a later migration starts from the true state). Combinations of
conversion modes are compared with a table of what each dialect supports.
"""

import copy
import itertools

from hypothesis import strategies as st

import edits
import migrate
import schema as S
from vh import Part, Result, check, check_equal

PROPERTY = "C05"
RULE = "refused: the migration contains an inexpressible change, alone or among other changes; modes: every combination counts"
ASSUMPTIONS = [
    "the table of supported modes is the documented one, with the modes each dialect's tests rely on",
    "whether a migration that is not refused succeeds is the subject of C02",
]


@st.composite
def cases(draw, kinds=edits.REFUSED + ["retarget", "opt", "add_field", "class_doc", "add_entity"], dialects=S.RELATIONAL, rich=False, **fixed):
    o = draw(S.options(dialects, **fixed))
    source = draw(S.schemas(o, min_entities=draw(st.sampled_from([1, 2]))))
    if rich:
        enrich(draw, source)
    target = draw(edits.edited(o, source, 3, kinds))
    return {"opts": o, "source": source, "target": target}


def enrich(draw, spec):
    "Makes sure that an enumeration is in use, and that there is a column with a range."
    m = spec["modules"][0]
    m["enums"] = [e for e in m["enums"] if e["name"] != "Level"] + [{"name": "Level", "members": [["m0", "low"], ["m1", "O'Brien"], ["m2", "high"], ["m3", "top"]]}]
    e = draw(st.sampled_from(m["entities"]))
    e["fields"] = S.order_fields(
        e["fields"][:1]
        + [{"name": "level", "type": ["enum", 0, "Level"], "opt": draw(st.booleans())}, {"name": "range", "type": ["range", 0, 10]}]
        + [f for f in e["fields"][1:] if f["type"][0] != "enum"]
    )


def run(case):
    opts = case["opts"]
    dialect = opts["dialect"]
    FormationError = migrate.formation_error()
    with S.Build(case["source"]) as b:
        g, db = migrate.created(opts, b)
        before = S.expected(g.state, dialect)
        source_snap = db.snapshot()
    with S.Build(case["target"]) as b:
        model = migrate.target_model(opts, b)
        wanted = S.expected(model, dialect)
        reasons = migrate.refusal_reasons(opts, source_snap, wanted)
        must = [r for r in reasons if r[0] in ("enum", "constraint", "identity", "pk")]
        kinds = sorted({r[0] for r in must})
        labels = [dialect, *[f"must: {k}" for k in kinds]]
        # a generator in the state of the source is asked to create the target: state changes only on success
        g2 = S.make_generator(opts, b)
        g2.state = g.state
        try:
            sql = g2.create(modules=b.modules)
        except FormationError as e:
            check(reasons, lambda: f"migration refused without a reason: {e!r} {e.__cause__!r}")
            check(g2.state is g.state, "state was replaced although the migration was refused")
            check_equal(S.expected(g2.state, dialect), before, "state after refusal")
            check_equal(S.expected(model, dialect), wanted, "target after refusal")
            # the refusal is not a matter of luck
            for fn in (lambda: g2.create(modules=b.modules), lambda: g.get_mutate_stmt(model)):
                try:
                    again = fn()
                except FormationError:
                    continue
                check(False, lambda: f"refused at first, then accepted: {again}")
            return Result(bool(must), labels + ["refused"])
        check(not must, lambda: f"migration should be refused: {must}\n{sql}")
        check_equal(S.expected(g2.state, dialect), wanted, "state after migration")
        return Result(False, labels + ["accepted"])


ENUMS = ["TYPE", "INLINE", "CHECK", "RELATION"]
STRUCTS = ["TYPE", "INLINE", "JSON"]
ARRAYS = ["ARRAY", "JSON", "RELATION"]
ALL_MODES = [
    {"dialect": d, "enum_mode": e, "struct_mode": s, "array_mode": a}
    for d in S.ALL
    for e, s, a in itertools.product([None] + ENUMS, [None] + STRUCTS, [None] + ARRAYS)
]


def run_modes(opts):
    FormationError = migrate.formation_error()
    spec = {"modules": [{"ns": None, "enums": [], "structs": [], "entities": [{"name": "A", "fields": [{"name": "id", "type": ["int"], "role": "pk"}]}]}]}
    d = opts["dialect"]
    allowed = S.MODES[d]
    bad = [k for k, ok in zip(("enum_mode", "struct_mode", "array_mode"), allowed) if opts[k] is not None and opts[k] not in ok]
    with S.Build(spec) as b:
        try:
            g = S.make_generator(opts, b)
        except FormationError:
            check(bad, f"supported modes are refused: {opts}")
            return Result(True, [d, "refused"])
        check(not bad, f"unsupported {bad} accepted: {opts}")
        check(g.create(modules=b.modules), "no statement")
        # the modes are the ones in effect
        eff = S.effective(opts)
        o = g.converter.options
        for k, want in zip(("enum_mode", "struct_mode", "array_mode"), eff):
            if opts[k] is not None:
                check_equal(getattr(o, k).name, opts[k], f"{k} in effect")
    return Result(True, [d, "accepted"])


PARTS = [
    Part("refused", cases, run, quick=1400, thorough=12000),
    Part("labels", lambda: cases(["drop_label", "rename_label", "add_label", "change_range"], rich=True, enum_mode="CHECK"), run, quick=400, thorough=4000),
    Part("types", lambda: cases(["drop_label", "rename_label", "add_label", "change_range"], ("postgresql",), rich=True, enum_mode="TYPE"), run, quick=400, thorough=4000),
    Part("modes", lambda: st.sampled_from(ALL_MODES), run_modes, quick=320, thorough=160, corpus=ALL_MODES, workers=1),
]
