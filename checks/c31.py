"""
C31: explorers and housekeeping name exactly the object meant.

History: tables with arbitrary names are created in several schemas of a reference database, through the table models of the
tool; then the explorer and the context of the tool (on the catalogue of that database, lib/catalogue.py) are asked whether
tables and columns exist, for the list of tables and for single tables, and told to drop tables and schemas. A set of names is
the model: answers must agree with it, and so must the database after each operation.
"""

import re
import sqlite3

from hypothesis import strategies as st

import catalogue
import drivers
import refdb
import schema as S
import sqllex
from vh import Part, Result, check, check_equal

PROPERTY = "C31"
RULE = "at least one name of the history has a character other than a letter or digit, and at least one operation is about an object that exists and one about an object that does not exist (objects: something is dropped)"
ASSUMPTIONS = [
    "the catalogue reports objects as documented by the vendors (lib/catalogue.py), and compares names exactly, as those of PostgreSQL and Oracle do",
    "names have no control characters; names in Oracle have no double quote and no dollar sign",
    "in dialects in which schemas are prefixes: table names and schemas are such that the schema can be told from the composite name (see known findings of C16); schemas are not created, and the explorer of Oracle does not check for existence",
    "composite foreign keys name the columns of the key in its order, except in PostgreSQL; names of constraints are as unique as the database requires",
    "a schema that tables of other schemas refer to may be refused to be dropped",
]
DIALECTS = ("postgresql", "mysql", "mssql", "oracle")

# -------------------------------------------------------------------------------------------------------------- names

LETTERS = "abA1_%'~\\ .;-é[]?:"


def fits(dialect, s, schema=False):
    if s != s.strip() or not s:
        return False
    if dialect in S.PREFIXED:
        if "__" in s or s.startswith("_") or s.endswith("_"):
            return False
        if dialect == "oracle" and '"' in s:
            return False
    return True


def names(dialect):
    hostile = st.text(LETTERS + '"', min_size=1, max_size=5).filter(lambda s: fits(dialect, s))
    return st.one_of(st.sampled_from(["Person", "order", "a", "a_b", "a%b", "aXb", "it's"]), hostile)


def variants(dialect, s):
    "Names that are not the same, but could be taken for the same."
    out = [s + "x", "x" + s, s[:-1], re.sub("[a-zA-Z1]", "_", s), s + "%", "%", re.sub("[_%]", "X", s), s.replace("'", "''"), s.replace("\\", "\\\\"), s.replace("\\", "")]
    if dialect in ("postgresql", "oracle"):
        out.append(s.swapcase())
    out += ["elsewhere", "ctid"]
    return sorted({v for v in out if v != s and fits(dialect, v)})


@st.composite
def cases(draw):
    dialect = draw(st.sampled_from(DIALECTS))
    nss = draw(st.lists(names(dialect), min_size=1, max_size=3, unique_by=str.casefold))
    pool = draw(st.lists(names(dialect), min_size=1, max_size=3, unique_by=str.casefold))
    tables, seen = [], set()
    for ns in [None] + nss:
        for n in draw(st.lists(st.sampled_from(pool), max_size=3, unique=True)):
            if (ns, n) in seen:
                continue
            seen.add((ns, n))
            t = {"ns": ns, "name": n, "cols": draw(st.lists(names(dialect), min_size=1, max_size=3, unique_by=str.casefold))}
            t["pk"] = draw(st.one_of(st.just(t["cols"][:1]), st.permutations(t["cols"]), st.lists(st.sampled_from(t["cols"]), min_size=1, max_size=3, unique=True)))
            # reference to a table, in the same schema for the most part
            there = [i for i, o in enumerate(tables) if (o["ns"] == ns or draw(st.integers(0, 5)) == 0) and len(o["pk"]) <= len(t["cols"])]
            if there and draw(st.booleans()):
                ref = draw(st.sampled_from(there))
                n = len(tables[ref]["pk"])
                there = draw(st.permutations(tables[ref]["pk"])) if dialect == "postgresql" else tables[ref]["pk"]
                t["ref"] = [ref, draw(st.lists(st.sampled_from(t["cols"]), min_size=n, max_size=n, unique=True)), list(there)]
            unique = draw(st.lists(st.lists(st.sampled_from(t["cols"]), min_size=1, max_size=2, unique=True), max_size=2, unique_by=lambda x: tuple(sorted(x))))
            if unique:
                t["unique"] = unique
            tables.append(t)
    ops = []
    for _ in range(draw(st.integers(3, 10))):
        kind = draw(st.sampled_from(["has_table", "has_column", "names", "get_table", "drop_table", "drop_schema", "create_schema"]))
        ns, n, c = draw(st.sampled_from([None] + nss)), draw(st.sampled_from(pool)), "a"
        if tables and draw(st.booleans()):
            t = draw(st.sampled_from(tables))
            ns, n, c = t["ns"], t["name"], draw(st.sampled_from(t["cols"]))
        if draw(st.integers(0, 3)) == 0:
            v = variants(dialect, n)
            n = draw(st.sampled_from(v)) if v else n
        elif draw(st.integers(0, 3)) == 0:
            v = variants(dialect, c)
            c = draw(st.sampled_from(v)) if v else c
        elif ns is not None and draw(st.integers(0, 3)) == 0:
            v = variants(dialect, ns)
            ns = draw(st.sampled_from(v)) if v else ns
        if kind == "names":
            ops.append(["names"])
        elif kind in ("drop_schema", "create_schema"):
            if ns is not None and (kind == "drop_schema" or dialect not in S.PREFIXED):
                ops.append([kind, ns])
        elif dialect == "oracle" and kind in ("has_table", "has_column"):
            ops.append(["get_table", ns, n])
        else:
            ops.append([kind, ns, n] + ([c] if kind == "has_column" else []))
    case = {"dialect": dialect, "schemas": nss, "tables": tables, "ops": ops}
    if dialect in ("postgresql", "mssql"):
        # the schema for unqualified names can be qualified, too
        case["current"] = draw(st.sampled_from([catalogue.CURRENT[dialect], "it's mine"]))
        if case["current"] not in nss:
            for op in ops:
                if len(op) > 2 and op[1] is None and draw(st.integers(0, 2)) == 0:
                    op[1] = case["current"]
    return case


# ------------------------------------------------------------------------------------------------------------- server


class Server(catalogue.CatalogueBackend):
    "Executes anonymous blocks, too."

    def on_execute(self, sql):
        if self.db.dialect == "oracle" and sql.lstrip()[:5].upper() == "BEGIN":
            self._view = None
            toks = sqllex.tokenize(sql, "oracle")
            words = [v.upper() if k == "word" else v for k, v in toks]
            ignored = "942" in words
            for i, (k, v) in enumerate(toks):
                if k == "word" and v.upper() == "IMMEDIATE":
                    kind, text = toks[i + 1]
                    if kind != "str" or toks[i + 2] != ("op", ";"):
                        raise refdb.DBError(f"syntax error: {sql}")
                    try:
                        self.db.execute(text)
                    except refdb.DBError as e:
                        if not (ignored and "does not exist" in str(e)):
                            raise
            return
        super().on_execute(sql)


# ------------------------------------------------------------------------------------------------------------- oracle


def run(case):
    from pysqlsync.base import DiscoveryError, QueryException
    from pysqlsync.factory import get_dialect
    from pysqlsync.formation.object_types import ForeignConstraint
    from pysqlsync.formation.object_types import ConstraintReference, UniqueConstraint
    from pysqlsync.model.data_types import SqlIntegerType
    from pysqlsync.base import GeneratorOptions
    from pysqlsync.model.id_types import LocalId, PrefixedId, QualifiedId

    dialect = case["dialect"]
    flat = dialect in S.PREFIXED
    db = refdb.RefDB(dialect)
    db.relax_df_names = True  # (known finding of C01)
    db.current = case.get("current") or catalogue.CURRENT[dialect]
    backend = Server(db)
    ctx = drivers.make_context(dialect, backend, GeneratorOptions())
    explorer = get_dialect(dialect).create_explorer(ctx)
    factory = ctx.connection.generator.factory
    qualified = PrefixedId if flat else QualifiedId

    def id(ns, n):
        return qualified(ns, n)

    def key(ns, n):
        return ("", f"{ns}__{n}" if ns is not None else n) if flat else (ns or "", n)

    schemas = set() if flat else set(case["schemas"])
    if not flat:
        for ns in case["schemas"]:
            drivers.run_async(ctx.create_schema(LocalId(ns)))
    tables, refs, order, unique = {}, {}, {}, {}
    for i, t in enumerate(case["tables"]):
        cols = list(t["cols"])
        columns = [factory.column_class(LocalId(c), SqlIntegerType(4), False, identity=i % 3 == 0 and c == cols[0] == t["pk"][0], default="12" if [c] == cols[1:2] else None) for c in cols]
        constraints = []
        # names of constraints are as alike as the product permits
        mine = sum(flat or o["ns"] == t["ns"] for o in case["tables"][:i])
        unique[(t["ns"], t["name"])] = {f"uq_{j}" if dialect == "mysql" else f"uq_{mine}_{j}": cols for j, cols in enumerate(t.get("unique", []))}
        for n, cs in unique[(t["ns"], t["name"])].items():
            constraints.append(UniqueConstraint(LocalId(n), tuple(LocalId(c) for c in cs)))
        if t.get("ref") is not None:
            o = case["tables"][t["ref"][0]]
            constraints.append(ForeignConstraint(LocalId("fk" if dialect == "postgresql" else f"fk_{mine}"), tuple(LocalId(c) for c in t["ref"][1]), ConstraintReference(id(o["ns"], o["name"]), tuple(LocalId(c) for c in t["ref"][2]))))
            refs[(t["ns"], t["name"])] = (o["ns"], o["name"])
        table = factory.table_class(id(t["ns"], t["name"]), columns, primary_key=tuple(LocalId(c) for c in t["pk"]), constraints=constraints)
        for stmt in (table.create_stmt(), table.add_constraints_stmt()):
            if stmt:
                drivers.run_async(ctx.execute(stmt))
        tables[(t["ns"], t["name"])] = cols
        order[(t["ns"], t["name"])] = i, t

    def state():
        return {k: list(t.cols) for k, t in db.tables.items()}

    def wanted():
        return {key(*k): cols for k, cols in tables.items()}

    def compare(k, what):
        found = drivers.run_async(explorer.get_table(id(*k)))
        check_equal([c.name.local_id for c in found.columns.values()], tables[k], f"columns of {what}")
        check_equal([bool(c.identity) for c in found.columns.values()], [order[k][0] % 3 == 0 and c == tables[k][0] == order[k][1]["pk"][0] for c in tables[k]], f"identity of {what}")
        check_equal([c.default for c in found.columns.values()], ["12" if i == 1 else None for i in range(len(tables[k]))], f"default values of {what}")
        check_equal([c.local_id for c in found.primary_key], order[k][1]["pk"], f"key of {what}")
        uqs = {c.name.local_id: [x.local_id for x in c.unique_columns] for c in found.constraints.values() if isinstance(c, UniqueConstraint)}
        check_equal(uqs, unique[k], f"unique constraints of {what}")
        fks = [c for c in found.constraints.values() if isinstance(c, ForeignConstraint)]
        check_equal(len(fks), int(k in refs), f"references of {what}")
        for x in fks:
            there = x.reference.table
            target = (there.local_id,) if flat else (there.scope_id or db.current, there.local_id)
            check_equal(target, (key(*refs[k])[1],) if flat else (refs[k][0] or db.current, refs[k][1]), f"table that {what} refers to")
            pairs = [(a.local_id, b.local_id) for a, b in zip(x.foreign_columns, x.reference.columns)]
            check_equal(len(x.foreign_columns), len(x.reference.columns), f"number of columns in a reference of {what}")
            check_equal(pairs, list(zip(*order[k][1]["ref"][1:])), f"columns that {what} refers with")

    check_equal(state(), wanted(), "tables created")
    for k in list(tables):
        compare(k, str(k))
    hit = miss = False
    labels = [dialect]
    for n, op in enumerate(case["ops"]):
        kind, args = op[0], op[1:]
        what = f"operation {n} {op}"
        labels.append(kind)
        before = db.snapshot()
        reading = True
        if kind == "names":
            if dialect == "oracle":
                continue
            found = sorted((x.scope_id or "", x.local_id) for x in drivers.run_async(explorer.get_table_names()) if x.scope_id != "other")
            check_equal(found, sorted((k[0] or db.current, k[1]) for k in wanted()), what)
        elif kind in ("drop_schema", "create_schema"):
            reading = False
            [ns] = args
            inside = {k for k in tables if k[0] == ns}
            if kind == "create_schema":
                known = ns in schemas
                try:
                    drivers.run_async(ctx.create_schema(LocalId(ns)))
                except QueryException as e:
                    check(False, lambda: f"{what} fails: {e.__cause__!r}")
                schemas.add(ns)
            else:
                known = bool(inside) or ns in schemas
                outside = {k for k, r in refs.items() if r in inside and k not in inside and k in tables}
                try:
                    drivers.run_async(ctx.drop_schema(LocalId(ns)))
                except QueryException as e:
                    check(outside, lambda: f"{what} fails: {e.__cause__!r}")
                    left = {k: cols for k, cols in state().items() if k not in {key(*x) for x in inside}}
                    check_equal(left, {k: cols for k, cols in wanted().items() if k not in {key(*x) for x in inside}}, f"tables of other schemas after {what}")
                    break
                schemas.discard(ns)
                for k in inside:
                    del tables[k]
                refs = {k: r for k, r in refs.items() if k in tables and r in tables}
        else:
            k = (None if args[0] == db.current and not flat else args[0], args[1])
            there = id(args[0], args[1])
            known = k in tables
            if kind == "has_table":
                check_equal(drivers.run_async(explorer.has_table(there)), known, what)
            elif kind == "has_column":
                known = known and args[2] in tables[k]
                check_equal(drivers.run_async(explorer.has_column(there, LocalId(args[2]))), known, what)
            elif kind == "get_table":
                if known:
                    compare(k, what)
                else:
                    try:
                        found = drivers.run_async(explorer.get_table(there))
                    except DiscoveryError:
                        pass
                    else:
                        check(False, lambda: f"{what} finds a table that does not exist: {found}")
            elif kind == "drop_table":
                reading = False
                users = {a for a, r in refs.items() if r == k and a != k}
                try:
                    drivers.run_async(ctx.drop_table_if_exists(there))
                except QueryException as e:
                    check(users, lambda: f"{what} fails: {e.__cause__!r}")
                    check_equal(db.snapshot(), before, f"database after {what} has been refused")
                    continue
                tables.pop(k, None)
                refs = {a: r for a, r in refs.items() if a in tables and r in tables}
        if kind != "names":
            hit, miss = hit or known, miss or not known
        if reading:
            check_equal(db.snapshot(), before, f"database after {what}")
        else:
            check_equal(state(), wanted(), f"tables after {what}")
            if not flat:
                check_equal({s for s in db.schemas if s}, schemas, f"schemas after {what}")
    texts = [t["name"] for t in case["tables"]] + case["schemas"] + [c for t in case["tables"] for c in t["cols"]]
    return Result(hit and miss and any(not s.isalnum() for s in texts), labels)


# ------------------------------------------------------------------------------------------------------------ objects


@st.composite
def object_cases(draw):
    o = draw(S.options(DIALECTS))
    return {"opts": o, "spec": draw(S.schemas(o)), "other": draw(st.booleans()), "model": draw(st.booleans())}


def run_objects(case):
    "What has been created in a session is dropped with nothing left, and nothing else is touched."
    opts = case["opts"]
    dialect = opts["dialect"]
    db = refdb.RefDB(dialect)
    db.relax_df_names = True
    if case["other"]:
        schema = "" if dialect in S.PREFIXED else '"elsewhere".'
        if schema:
            db.execute('CREATE SCHEMA "elsewhere";')
        db.execute(f'CREATE TABLE {schema}"elsewhere" ("id" {"number" if dialect == "oracle" else "integer"} NOT NULL);')
    before = db.snapshot()
    backend = Server(db)
    with S.Build(case["spec"]) as b:
        ctx = drivers.make_context(dialect, backend, S.make_options(opts, b))
        drivers.run_async(ctx.create_objects(b.entities))
        created = db.snapshot()
        check(created != before, "nothing is created")
        try:
            if case["model"]:
                # by the statements of the schema model
                state = ctx.connection.generator.state
                for ns in state.namespaces.values():
                    text = ns.drop_constraints_stmt()
                    if text:
                        drivers.run_async(ctx.execute(text))
                drivers.run_async(ctx.execute(state.drop_stmt()))
            else:
                drivers.run_async(ctx.drop_objects())
        except Exception as e:
            check(False, f"objects cannot be dropped: {e!r} {e.__cause__!r}")
    d = S.diff(db.snapshot(), before)
    check(not d, lambda: "after the objects have been dropped: " + "; ".join(d[:5]))
    count = len(created["tables"]) + len(created["types"])
    return Result(count > 1, [dialect, "/".join(S.effective(opts))])


# ---------------------------------------------------------------------------------------------------------- read only

TRINO_TYPES = {
    "boolean": "boolean",
    "tinyint": "tinyint",
    "smallint": "smallint",
    "integer": "integer",
    "bigint": "bigint",
    "real": "real",
    "double": "double precision",
    "decimal(10,2)": "decimal(10, 2)",
    "decimal(38,0)": "decimal(38, 0)",
    "varchar": "text",
    "varchar(20)": "varchar(20)",
    "char(3)": "char(3)",
    "date": "date",
    "time(3)": "time(3)",
    "timestamp(6)": "timestamp(6)",
    "timestamp(3) with time zone": "timestamp(3) with time zone",
    "uuid": "uuid",
    "json": "json",
}


@st.composite
def trino_cases(draw):
    nss = draw(st.lists(names("trino"), min_size=1, max_size=3, unique_by=str.casefold))
    pool = draw(st.lists(names("trino"), min_size=1, max_size=3, unique_by=str.casefold))
    tables, seen = [], set()
    for ns in nss:
        for n in draw(st.lists(st.sampled_from(pool), max_size=3, unique=True)):
            cols = draw(st.lists(names("trino"), min_size=1, max_size=4, unique_by=str.casefold))
            tables.append([ns, n, [[c, draw(st.sampled_from(sorted(TRINO_TYPES))), draw(st.booleans())] for c in cols]])
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        ns, n, c = draw(st.sampled_from([None] + nss)), draw(st.sampled_from(pool)), "a"
        if tables and draw(st.booleans()):
            t = draw(st.sampled_from(tables))
            ns, n, c = t[0], t[1], draw(st.sampled_from(t[2]))[0]
        which = draw(st.sampled_from(["", "", "n", "c", "s"]))
        if which == "n":
            n = draw(st.sampled_from(variants("trino", n) or [n]))
        elif which == "c":
            c = draw(st.sampled_from(variants("trino", c) or [c]))
        elif which == "s" and ns:
            ns = draw(st.sampled_from(variants("trino", ns) or [ns]))
        kind = draw(st.sampled_from(["has_table", "has_column", "names", "get_table", "get_table", "namespace"]))
        ops.append([kind, ns, n, c])
    return {"schemas": nss, "tables": tables, "ops": ops, "current": draw(st.sampled_from(nss)), "system": draw(st.booleans())}


class TrinoServer(drivers.Backend):
    "Has the tables of `information_schema` that Trino has, which say nothing of constraints."

    def __init__(self, case):
        super().__init__()
        self.current = case["current"]
        self.con = con = sqlite3.connect(":memory:", isolation_level=None, check_same_thread=False)
        con.execute("ATTACH ':memory:' AS information_schema")
        con.execute("CREATE TABLE information_schema.tables (table_catalog, table_schema, table_name, table_type)")
        con.execute("CREATE TABLE information_schema.columns (table_catalog, table_schema, table_name, column_name, ordinal_position, column_default, is_nullable, data_type)")
        tables = list(case["tables"])
        if case["system"]:
            tables = [["information_schema", "columns", [["column_name", "varchar", True]]], ["pg_catalog", "pg_class", [["oid", "bigint", False]]]] + tables
        for ns, n, cols in tables:
            con.execute("INSERT INTO information_schema.tables VALUES ('c', ?, ?, 'BASE TABLE')", (ns, n))
            for i, (c, t, nullable) in reversed(list(enumerate(cols))):
                con.execute("INSERT INTO information_schema.columns VALUES ('c', ?, ?, ?, ?, NULL, ?, ?)", (ns, n, c, i + 1, "YES" if nullable else "NO", t))

    def on_query(self, sql):
        parts = re.split("('(?:[^']|'')*')", sql)
        for i in range(0, len(parts), 2):
            check(not re.search(r"\bCURRENT_SCHEMA\s*\(", parts[i], re.I), f"not a function: {sql}")
            parts[i] = re.sub(r"\bCURRENT_SCHEMA\b", lambda m: catalogue.quoted(self.current), parts[i], flags=re.I)
        cur = self.con.execute("".join(parts).rstrip("; \n"))
        columns = tuple(d[0] for d in cur.description)
        return [(columns, row) for row in cur.fetchall()]


def run_trino(case):
    from pysqlsync.base import DiscoveryError, GeneratorOptions
    from pysqlsync.factory import get_dialect
    from pysqlsync.model.id_types import LocalId, QualifiedId

    ctx = drivers.make_context("trino", TrinoServer(case), GeneratorOptions())
    explorer = get_dialect("trino").create_explorer(ctx)
    tables = {(ns, n): cols for ns, n, cols in case["tables"]}
    hit = miss = False

    def compare(found, cols, what):
        check_equal(
            [(c.name.local_id, str(c.data_type), c.nullable) for c in found.columns.values()],
            [(c, TRINO_TYPES[t], nullable) for c, t, nullable in cols],
            f"columns of {what}",
        )
        check_equal([c.local_id for c in found.primary_key], [cols[0][0]], f"key of {what}, which is assumed")
        check_equal(len(found.constraints), 0, f"constraints of {what}")

    for op in case["ops"]:
        kind, ns, n, c = op
        k = (ns if ns is not None else case["current"], n)
        there = QualifiedId(ns, n)
        known = k in tables
        if kind == "has_table":
            check_equal(drivers.run_async(explorer.has_table(there)), known, str(op))
        elif kind == "has_column":
            known = known and c in [x[0] for x in tables[k]]
            check_equal(drivers.run_async(explorer.has_column(there, LocalId(c))), known, str(op))
        elif kind == "names":
            found = [(t.scope_id, t.local_id) for t in drivers.run_async(explorer.get_table_names())]
            check_equal(sorted(found), sorted(tables), "tables")
            continue
        elif kind == "get_table":
            try:
                found = drivers.run_async(explorer.get_table(there))
            except DiscoveryError:
                found = None
            check_equal(found is not None, known, str(op))
            if known:
                compare(found, tables[k], str(op))
        else:
            space = drivers.run_async(explorer.get_namespace(LocalId(ns)) if ns is not None else explorer.get_namespace_current())
            inside = {t: cols for (s, t), cols in tables.items() if s == k[0]}
            check_equal(sorted(t.name.local_id for t in space.tables.values()), sorted(inside), f"tables of {op}")
            for t in space.tables.values():
                compare(t, inside[t.name.local_id], f"{op} {t.name}")
                check_equal(t.name.scope_id, ns, f"schema of {t.name}")
            if inside:
                check_equal(space.name, LocalId(ns or ""), "name of the namespace")
            known = bool(inside)
        hit, miss = hit or known, miss or not known
    return Result(hit and miss, ["trino"])


PARTS = [
    Part("names", cases, run, quick=1200, thorough=30000),
    Part("objects", object_cases, run_objects, quick=500, thorough=8000),
    Part("readonly", trino_cases, run_trino, quick=300, thorough=5000),
]
