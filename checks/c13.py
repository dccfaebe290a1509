"""
C13: objects round-trip through their table column by column.

Histories of inserting, upserting and deleting data-class objects run against the reference database by way of a stand-in
for the driver. The tracked table may have its columns in another order than the class has fields, as after discovery.
"""

from hypothesis import strategies as st

import data as D
import history as H
import schema as S
import several
from drivers import DRIVER_DIALECTS, run_async
from vh import Part, Result, check, check_equal

PROPERTY = "C13"
RULE = "at least two columns besides the key, and at least one object has been written; in part several, the same operation on equally named tables in two schemas"
ASSUMPTIONS = [
    "classes with a list of entities (or any list when lists are kept in join tables) have no column for it and cannot be written as objects",
    "the remaining assumptions of C09 and C12",
]


@st.composite
def cases(draw, dialects=DRIVER_DIALECTS):
    c = draw(H.histories(dialects, max_ops=4, objects_only=True))
    c["order"] = draw(st.permutations(range(len(D.fields_of(c["spec"])))))
    return c


def reorder(ld, order):
    "The tracked model lists columns in another order than the class, as a model acquired by discovery may."
    table = ld.table()
    columns = list(table.columns.values())
    if len(columns) != len(order):
        return False
    columns = [columns[i] for i in order]
    for c in list(columns):
        table.columns.remove(c.name.local_id)
    for c in columns:
        table.columns.add(c)
    # likewise in the database
    t = ld.store.db.tables[ld.key()]
    t.cols = {c.name.local_id: t.cols[c.name.local_id] for c in columns}
    return list(order) != sorted(order)


def run(case):
    opts, spec = case["opts"], case["spec"]
    fields = D.fields_of(spec)
    with S.Build(spec) as b:
        ld = D.Loader(spec, opts, b)
        reordered = reorder(ld, case["order"])
        model = {}
        before = H.others(ld)
        written = 0
        for i, op in enumerate(case["ops"]):
            written += len(op.get("records", []))
            source = H.apply(ld, fields, model, op)
            what = f"operation {i} ({op['op']} {len(op.get('records', op.get('keys')))} object(s))"
            check(source.started <= 1, lambda: f"source has been iterated {source.started} times by {what}")
            H.compare(ld, fields, model, what)
            check_equal(H.others(ld), before, f"rows of other tables after {what}")
    return Result(written > 0 and len(fields) > 2, [opts["dialect"], "reordered" if reordered else "same order"])


PARTS = [Part("objects", cases, run, quick=1500, thorough=30000), Part("several", lambda: several.histories(DRIVER_DIALECTS, objects=True), several.run, quick=400, thorough=8000)]
