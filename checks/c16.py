"""
C16: create, discover and synchronise converge.

History: a schema is synchronised with a reference database through the explorer of the tool (which sees the database only
through its catalogue, lib/catalogue.py), again with the same classes, then after edits of the classes, and so forth, each
time in a new session. Each first synchronisation must leave exactly the schema of the classes in the database (compared
with the model of a generator of its own), each second one must execute nothing, and what has been discovered must
describe the database.
"""

import copy
import re

from hypothesis import strategies as st

import catalogue
import data as D
import drivers
import edits
import history
import migrate
import refdb
import schema as S
from checks import c15
from vh import Part, Result, check, check_equal

PROPERTY = "C16"
RULE = "at least one synchronisation changes the schema of a database that has tables already, or the schema has a foreign key, unique constraint, default value, comment or user-defined type"
ASSUMPTIONS = [
    "the catalogue reports objects as documented by the vendors (lib/catalogue.py); Redshift, Delta Lake, Snowflake and Trino are not covered",
    "the reference database accepts what the real databases accept, and has the entries of lookup tables as data, not schema",
    "names of default constraints in Microsoft SQL Server (df_<column>) are not required to be unique (see C01)",
    "only namespaces of the modules that are synchronised are of concern",
]
DIALECTS = ("postgresql", "mysql", "mssql", "oracle")
CREATED = "namespace"


# -------------------------------------------------------------------------------------------------------------- cases


def supported(opts, spec):
    "Replaces what is known not to converge (known_findings.txt): check constraints, objects of the current schema."
    out = copy.deepcopy(spec)
    dialect = opts["dialect"]
    for m in out["modules"]:
        if dialect in ("postgresql", "mssql") and m["ns"] is None:
            m["ns"] = "base"
        if dialect in ("mysql", "oracle") and m["ns"] is None and any("__" in e["name"] for x in out["modules"] for e in x["entities"]):
            m["ns"] = "base"  # (a join table is named after both of its tables)
        for c in m["structs"] + m["entities"]:
            for f in c["fields"]:
                if f["type"][0] == "range":
                    f["type"] = ["int"]
                if f["type"] in (["decimal"], ["decimal", 5, 0]) and f.get("default") == ["decimal", "1.50"]:
                    f["default"] = ["decimal", "-3"]
    return out


@st.composite
def cases(draw):
    o = draw(S.options(DIALECTS).filter(lambda o: S.effective(o)[0] != "CHECK"))
    source = draw(S.schemas(o))
    steps = [source]
    kinds = [k for k in edits.EDITS if k != "drop_module"]
    for _ in range(draw(st.integers(0, 2))):
        steps.append(draw(edits.edited(o, steps[-1], 3, kinds)))
    return {"opts": o, "steps": [supported(o, s) for s in steps]}


@st.composite
def columns(draw):
    o = draw(S.options(DIALECTS).filter(lambda o: S.effective(o)[0] != "CHECK"))
    return {"opts": o, "steps": [supported(o, s) for s in draw(edits.columns(o))]}


# ------------------------------------------------------------------------------------------------------------- oracle


def explorer_of(opts, ctx):
    from pysqlsync.factory import get_dialect

    return get_dialect(opts["dialect"]).create_explorer(ctx)


def session(opts, backend, b):
    ctx = drivers.make_context(opts["dialect"], backend, S.make_options(opts, b))
    return ctx, explorer_of(opts, ctx)


def which(b):
    "A single module may be passed in either of two ways."
    if len(b.modules) == 1 and len(b.entities) % 2:
        return {"module": b.modules[0]}
    return {"modules": b.modules}


def synchronize(opts, backend, b):
    "Synchronises in a session of its own; returns the statements executed and the model discovered (or assumed)."
    ctx, explorer = session(opts, backend, b)
    k = len(backend.log)
    drivers.run_async(explorer.synchronize(**which(b)))
    return [e[1] for e in backend.log[k:] if e[0] == "execute"], ctx, explorer


def described(opts, db, ctx, explorer, b):
    "Compares what is discovered with what the database has."
    dialect = opts["dialect"]
    drivers.run_async(explorer.discover(**which(b)))
    assumed(opts, db, ctx, "what is discovered")
    c15.compare(db, ctx, explorer, [(t.name, c15_key(dialect, t.name)) for ns in ctx.connection.generator.state.namespaces.values() for t in ns.tables.values()])


def assumed(opts, db, ctx, what):
    "Compares the model that a session has of the database with what the database has."
    dialect = opts["dialect"]
    found = S.expected(ctx.connection.generator.state, dialect)
    actual = db.snapshot()
    for snap in (found, actual):
        for t in snap["tables"].values():
            # types and default values are compared in terms of the catalogue (C15), and by not being altered
            for c in t["columns"].values():
                c["type"] = None
                c["default"] = c["default"] is not None and c["default"].upper() != "NULL"
            t["constraints"] = {k: v for k, v in t["constraints"].items() if v["kind"] != "check"}
        for t in snap["types"].values():
            if "members" in t:
                t["members"] = sorted(t["members"])
    actual["schemas"] = found["schemas"]
    d = S.diff(found, actual)
    check(not d, lambda: f"{what} does not describe the database: " + "; ".join(d[:5]))


def c15_key(dialect, id):
    if dialect in ("mysql", "oracle"):
        return ("", id.local_id)
    return (id.scope_id or "", id.local_id)


def synonyms(dialect, snap):
    "A snapshot of the schema in which types that the database takes for the same are spelled alike."
    if dialect == "mysql":
        for t in snap["tables"].values():
            for c in t["columns"].values():
                c["type"] = SAME_TYPE.sub("double precision", c["type"])
    return snap


SAME_TYPE = re.compile("^(real|double)$", re.I)  # unless the server runs with REAL_AS_FLOAT


def run(case):
    opts = case["opts"]
    dialect = opts["dialect"]
    FormationError = migrate.formation_error()
    db = refdb.RefDB(dialect)
    db.relax_df_names = True
    backend = catalogue.CatalogueBackend(db)
    labels = [dialect, "/".join(S.effective(opts))]
    altered = False
    for n, spec in enumerate(case["steps"]):
        with S.Build(spec) as b:
            model = migrate.target_model(opts, b)
            wanted = S.expected(model, dialect)
            before = db.snapshot()
            reasons = migrate.refusal_reasons(opts, before, wanted)
            try:
                first, ctx, _ = synchronize(opts, backend, b)
            except FormationError as e:
                check(reasons, lambda: f"synchronisation refused without a reason: {e!r} {e.__cause__!r}")
                labels.append("refused")
                break
            except Exception as e:
                check(False, f"synchronisation {n + 1} fails: {e!r} {e.__cause__!r}")
            must = [r for r in reasons if r[0] in ("enum", "constraint", "identity", "pk")]
            check(not must, lambda: f"synchronisation should be refused: {must}")
            after = db.snapshot()
            d = S.diff(synonyms(dialect, copy.deepcopy(after)), synonyms(dialect, copy.deepcopy(wanted)))
            check(not d, lambda: f"schema after synchronisation {n + 1} differs from the classes: " + "; ".join(d[:5]) + "\n" + "\n".join(first))
            assumed(opts, db, ctx, f"the model after synchronisation {n + 1}")
            check(bool(first) == (before != after), lambda: f"statements without an effect: {first}")
            try:
                second, ctx, explorer = synchronize(opts, backend, b)
            except Exception as e:
                check(False, f"synchronising again with the same classes fails: {e!r} {e.__cause__!r}")
            check(not second, lambda: "synchronising again with the same classes executes: " + "\n".join(second))
            described(opts, db, ctx, explorer, b)
            altered = altered or n > 0 and bool(first)
    rich = any(
        t["constraints"] or t["comment"] or any(c["default"] or c["comment"] for c in t["columns"].values()) for t in wanted["tables"].values()
    )
    return Result(altered or rich or bool(wanted["types"]), labels + (["altered"] if altered else []))


# ----------------------------------------------------------------------------------------------------------- sessions


@st.composite
def sessions(draw):
    o = draw(S.options(DIALECTS).filter(lambda o: S.effective(o)[0] != "CHECK"))
    source = draw(S.schemas(o))
    kinds = [k for k in edits.EDITS if k not in ("drop_module", "add_module")]
    target = draw(edits.edited(o, source, 3, kinds))
    return {"opts": o, "steps": [supported(o, s) for s in (source, target)], "fail": draw(st.integers(0, 3))}


def run_sessions(case):
    "One session creates the schema, a second one fails to change it before it succeeds, and the first one looks again."
    from pysqlsync.base import QueryException

    opts = case["opts"]
    dialect = opts["dialect"]
    FormationError = migrate.formation_error()
    db = refdb.RefDB(dialect)
    db.relax_df_names = True
    backend = catalogue.CatalogueBackend(db)
    source, target = case["steps"]
    with S.Build(source) as b:
        _, ctx1, explorer1 = synchronize(opts, backend, b)
        assumed(opts, db, ctx1, "the model of the first session")
    labels = [dialect]
    with S.Build(target, modules=b.all_modules) as b:
        rehearsal = catalogue.CatalogueBackend(db.clone())
        try:
            statements, _, _ = synchronize(opts, rehearsal, b)
        except FormationError:
            return Result(False, [dialect, "refused"])
        if statements:
            fail = case["fail"] % len(statements) if case["fail"] else 0
            index = [i for i, e in enumerate(rehearsal.log) if e[0] == "execute"][fail]
            ctx2, explorer2 = session(opts, backend, b)
            start = len(backend.log)
            backend.fail_at = start + index
            error = None
            try:
                drivers.run_async(explorer2.synchronize(**which(b)))
            except Exception as e:
                error = e
            backend.fail_at = None
            check(isinstance(error, QueryException) and error.__cause__ is backend.raised, lambda: f"statement {fail} of the synchronisation fails with {backend.raised!r}, which surfaces as {error!r}")
            check_equal(len(backend.log) - start, index + 1, "calls made by a synchronisation that fails")
            if fail == 0:
                # nothing has been changed
                assumed(opts, db, ctx2, "the model after a synchronisation that has failed")
                drivers.run_async(explorer2.synchronize(**which(b)))
                assumed(opts, db, ctx2, "the model after a second attempt to synchronise")
                labels.append("again")
            else:
                labels.append("halfway")
        described(opts, db, ctx1, explorer1, b)
        if not statements or fail == 0:
            wanted = S.expected(migrate.target_model(opts, b), dialect)
            d = S.diff(synonyms(dialect, db.snapshot()), synonyms(dialect, wanted))
            check(not d, lambda: "schema after the second attempt differs from the classes: " + "; ".join(d[:5]))
    return Result(bool(statements), labels)


# ---------------------------------------------------------------------------------------------------------------- use


class Server(D.Store):
    "Answers queries on the catalogue, and executes anything else."

    def on_query(self, sql):
        if CATALOGUE.search(sql):
            return catalogue.CatalogueBackend(self.db).on_query(sql)
        return super().on_query(sql)


CATALOGUE = re.compile(r"\b(information_schema|pg_catalog|current_schema|sys|dba_\w+)\b", re.I)


@st.composite
def uses(draw):
    case = draw(history.histories(DIALECTS))
    if case["opts"]["dialect"] in ("postgresql", "mssql") or case["opts"]["enum_mode"] == "CHECK":
        for m in case["spec"]["modules"]:
            m["ns"] = m["ns"] or "base"
    for m in case["spec"]["modules"]:
        if any("__" in e["name"] for e in m["entities"]):
            m["ns"] = m["ns"] or "base"
    case["at"] = draw(st.sets(st.integers(0, len(case["ops"])), min_size=1, max_size=2).map(sorted))
    return case


def use(case):
    opts, spec = case["opts"], case["spec"]
    fields = D.fields_of(spec)
    labels = [opts["dialect"], "/".join(S.effective(opts))]
    with S.Build(spec) as b:
        ld = D.Loader(spec, opts, b, store=Server(opts["dialect"]))
        before = history.others(ld)
        model, used = {}, 0
        for i in range(len(case["ops"]) + 1):
            if i in case["at"]:
                # as a session that finds the schema in place
                ld.context = D.make_context(opts["dialect"], ld.store, S.make_options(opts, b))
                explorer = explorer_of(opts, ld.context)
                drivers.run_async(explorer.discover(modules=b.modules))
            if i == len(case["ops"]):
                break
            op = case["ops"][i]
            what = f"operation {i} ({op['op']}) on tables discovered"
            history.apply(ld, fields, model, op)
            history.compare(ld, fields, model, what)
            check_equal(history.others(ld), before, f"rows of other tables after {what}")
            used += i >= case["at"][0] and bool(op.get("keys") or op.get("records"))
    return Result(used > 0, labels)


PARTS = [
    Part("schemas", cases, run, quick=800, thorough=8000),
    Part("sessions", sessions, run_sessions, quick=500, thorough=5000),
    Part("columns", columns, run, quick=600, thorough=6000),
    Part("use", uses, use, quick=600, thorough=6000),
]
