"""
C01: schema creation scripts execute and build a closed, complete schema.

Generated module sets and options are turned into a creation script by the code under test. The script is executed
statement by statement on a reference database (lib/refdb.py) that knows the rules of the dialect; afterwards the contents
of the database must be what the schema model says (both directions).
"""

from hypothesis import strategies as st

import refdb
import schema as S
import sqllex
from vh import Part, Result, check, check_equal

PROPERTY = "C01"
RULE = "at least two tables and a reference, type, lookup table or join table"
ASSUMPTIONS = [
    "RefDB (lib/refdb.py) accepts what the real databases accept: name resolution, uniqueness of names, dependencies, "
    "and basic typing follow the documentation of PostgreSQL 15, MySQL 8, SQL Server 2022 and Oracle 23",
    "for Redshift, Delta Lake, Snowflake and Trino, statements have the form that the tool is made to write (names in double "
    "quotes, comments within definitions in Delta Lake and Snowflake) and any word names a type, except in Redshift",
    "names of default constraints in Microsoft SQL Server (df_<column>) are not required to be unique in the generated part, "
    "which is recorded as a known finding",
    "columns of type JsonType are not generated: the installed strong_typing cannot document a class that has one",
]


def features(spec):
    out = set()
    for mod in spec["modules"]:
        for e in mod["entities"]:
            for f in e["fields"]:
                t = f["type"]
                out.add(t[0] if t[0] not in ("list", "set") else f"{t[0]}[{t[1][0]}]")
                for k in ("opt", "unique"):
                    if f.get(k):
                        out.add(k)
                if f.get("default") is not None:
                    out.add("default")
                if f.get("doc"):
                    out.add("doc")
    if len(spec["modules"]) > 1:
        out.add("modules")
    return out


def run_create(case):
    opts, spec = case["opts"], case["spec"]
    with S.Build(spec) as b:
        g = S.make_generator(opts, b)
        if case.get("by", "modules") == "tables":
            sql = g.create(tables=b.entities)
        else:
            sql = g.create(modules=b.modules)
        db = refdb.RefDB(opts["dialect"])
        db.relax_df_names = not case.get("strict_df", False)
        try:
            db.execute(sql or "")
        except (refdb.DBError, sqllex.SqlSyntaxError) as e:
            check(False, f"creation script fails: {e}\n{sql}")
        d = S.diff(db.snapshot(), S.expected(g.state, opts["dialect"]))
        check(not d, lambda: "schema differs from model: " + "; ".join(d[:5]) + "\n" + sql)
        # the model itself is closed and has the tables of all classes
        names = {".".join([t.name.scope_id or "", t.name.local_id]) for ns in g.state.namespaces.values() for t in ns.tables.values()}
        n_ent = sum(len(m["entities"]) for m in spec["modules"])
        check(len(names) >= n_ent, f"{n_ent} entity classes but tables {sorted(names)}")
        # lookup tables hold the labels when initialisation is requested
        if opts.get("initialize_tables"):
            em = S.effective(opts)[0]
            for i, mod in enumerate(spec["modules"]):
                for e in mod["enums"]:
                    tid = g.get_qualified_id(_ref(b.cls(i, e["name"])))
                    key = (tid.scope_id or "", tid.local_id)
                    t = db.tables.get(key)
                    if t is not None:
                        got = [r["value"] for r in t.rows]
                        check_equal(sorted(map(str, got)), sorted(str(v) for _, v in e["members"]), f"contents of lookup table {key}")
        n_tab = len(db.tables)
        n_con = sum(len(t.constraints) for ns in g.state.namespaces.values() for t in ns.tables.values())
        return Result(n_tab >= 2 and n_con > 0, [opts["dialect"], "/".join(S.effective(opts)), *features(spec)])


def _ref(cls):
    from pysqlsync.base import ClassRef

    return ClassRef(cls)


@st.composite
def cases(draw, dialects=S.RELATIONAL, **kw):
    o = draw(S.options(dialects))
    kw.setdefault("min_entities", draw(st.sampled_from([0, 1, 2, 2])))
    return {"opts": o, "spec": draw(S.schemas(o, **kw)), "by": draw(st.sampled_from(["modules", "modules", "tables"]))}


def circular(state):
    "Namespaces refer to each other, such that none can be created first."
    graph = {ns.name.local_id: {r.local_id for r in ns.get_referenced_namespaces()} for ns in state.namespaces.values()}
    while graph:
        first = [n for n, refs in graph.items() if not (refs & set(graph)) - {n}]
        if not first:
            return True
        for n in first:
            del graph[n]
    return False


def run_objects(case):
    "The object model prints itself as a script that builds it, and as another that removes it."
    opts, spec = case["opts"], case["spec"]
    dialect = opts["dialect"]
    with S.Build(spec) as b:
        g = S.make_generator(opts, b)
        g.create(modules=b.modules)
        wanted = S.expected(g.state, dialect)
        db = refdb.RefDB(dialect)
        db.relax_df_names = True
        empty = db.snapshot()
        whole = case["whole"] or circular(g.state)
        if whole:
            script = [str(g.state)]
        else:
            # namespace by namespace: those that are referred to come first
            g.state.sort()
            spaces = list(g.state.namespaces.values())
            if case["names"]:
                spaces = [g.state.namespaces[ns.name.local_id] for ns in spaces]
            script = [str(ns) for ns in spaces] + [ns.add_constraints_stmt() or "" for ns in spaces]
        try:
            for sql in filter(None, script):
                db.execute(sql)
        except (refdb.DBError, sqllex.SqlSyntaxError) as e:
            check(False, f"the objects are printed as a script that fails: {e}\n" + "\n".join(script))
        d = S.diff(db.snapshot(), wanted)
        check(not d, lambda: "schema differs from model: " + "; ".join(d[:5]) + "\n" + "\n".join(script))
        full = len(db.tables) + len(db.types)
        script = [ns.drop_constraints_stmt() or "" for ns in g.state.namespaces.values()]
        if whole:
            script.append(g.state.drop_stmt())
        else:
            script.extend(ns.drop_stmt() for ns in reversed(spaces))
        try:
            for sql in filter(None, script):
                db.execute(sql)
        except (refdb.DBError, sqllex.SqlSyntaxError) as e:
            check(False, f"the objects cannot be dropped: {e}\n" + "\n".join(script))
        check_equal(db.snapshot(), empty, "what remains when all objects have been dropped")
        return Result(full >= 2, [dialect, "/".join(S.effective(opts)), "whole" if whole else "by namespace"])


@st.composite
def object_cases(draw):
    return draw(cases(S.ALL)) | {"whole": draw(st.booleans()), "names": draw(st.booleans())}


PARTS = [
    Part("create", cases, run_create, quick=1400, thorough=12000, corpus=[]),
    Part("large", lambda: cases(max_modules=4, max_entities=5), run_create, quick=200, thorough=3000),
    Part("objects", object_cases, run_objects, quick=500, thorough=5000),
    Part("others", lambda: cases(("redshift", "delta", "snowflake", "trino")), run_create, quick=500, thorough=5000),
]
