"""
C03: synchronising with an already matching schema emits nothing.

Metamorphic: the same classes, listed or defined in another order, must yield a schema model to which no statement leads
from the first one, before and after migrations, in all dialects.
"""

import copy

from hypothesis import strategies as st

import edits
import migrate
import schema as S
from vh import Part, Result, check

PROPERTY = "C03"
RULE = "the schema has at least two tables, or a table with three columns and a constraint"
ASSUMPTIONS = ["definition order of classes, fields and labels within a class is not part of equality; names and definitions are"]


@st.composite
def permuted(draw, spec, fields=True):
    "The same schema, defined in another order (the key column stays first)."
    out = copy.deepcopy(spec)
    for m in out["modules"]:
        m["entities"] = draw(st.permutations(m["entities"]))
        m["enums"] = draw(st.permutations(m["enums"]))
        for e in m["entities"]:
            if fields and draw(st.booleans()):
                e["fields"] = [e["fields"][0]] + S.order_fields(draw(st.permutations(e["fields"][1:])))
    return out


@st.composite
def cases(draw):
    o = draw(S.options(S.ALL))
    source = draw(S.schemas(o, min_entities=draw(st.sampled_from([0, 1, 2]))))
    n = len(source["modules"])
    return {
        "opts": o,
        "source": source,
        "same": draw(permuted(source)),
        "order": draw(st.permutations(range(n))),
        "by": draw(st.sampled_from(["modules", "tables"])),
        "edits": draw(edits.edited(o, source, 3)) if draw(st.booleans()) else None,
    }


def model(g, opts, b, order, by):
    if by == "modules":
        g.create(modules=[b.all_modules[i] for i in order])
    else:
        ents = [b.cls(i, e["name"]) for i in order for e in b.spec["modules"][i]["entities"]]
        g.create(tables=list(reversed(ents)))
    return g.state


def run(case):
    opts = case["opts"]
    source, same, by = case["source"], case["same"], case["by"]
    if any(not m["entities"] for m in source["modules"]):
        by = "modules"  # a module without entities is only known as a module
    FormationError = migrate.formation_error()
    n = len(source["modules"])
    with S.Build(source) as b:
        g = S.make_generator(opts, b)
        model(g, opts, b, range(n), by)
        # the same generator, asked again
        again = model_stmt(g, b, range(n), by)
        check(again is None, lambda: f"statement to create the same schema again: {again}")
    with S.Build(same) as b:
        state2 = model(S.make_generator(opts, b), opts, b, case["order"], by)
        stmt = g.get_mutate_stmt(state2)
        check(stmt is None, lambda: f"statement between equal schemas: {stmt}")
        g2 = S.make_generator(opts, b)
        model(g2, opts, b, case["order"], by)
        stmt = g2.get_mutate_stmt(g.state)
        check(stmt is None, lambda: f"statement between equal schemas (reversed): {stmt}")
    labels = [opts["dialect"], "/".join(S.effective(opts)), by]
    if case.get("edits"):
        with S.Build(case["edits"]) as b:
            target = migrate.target_model(opts, b)
            try:
                g.get_mutate_stmt(target)
            except FormationError:
                labels.append("refused")
            else:
                g.state = target
        if "refused" not in labels:
            with S.Build(case["edits"]) as b:
                g3 = S.make_generator(opts, b)
                g3.state = g.state
                stmt = model_stmt(g3, b, None, "modules")
                check(stmt is None, lambda: f"statement after a migration: {stmt}")
                labels.append("migrated")
    tables = [t for ns in g.state.namespaces.values() for t in ns.tables.values()]
    return Result(len(tables) > 1 or any(len(t.columns) > 2 and t.constraints for t in tables), labels)


def model_stmt(g, b, order, by):
    if by == "modules":
        return g.create(modules=b.modules if order is None else [b.all_modules[i] for i in order])
    return g.create(tables=b.entities)


PARTS = [Part("same", cases, run, quick=1500, thorough=12000)]
