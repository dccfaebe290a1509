"""
C07: identifiers and literals are quoted so that data never becomes SQL.

Part "source" renames the texts of generated schemas (enumeration labels, descriptions, defaults, schema names) to hostile
strings; the scripts that create, migrate and drop the schema are run on the reference database, whose lexer is written
against the lexical rules of each product, and its contents are compared with the texts. Part "objects" does the same with
schema models built directly from hostile names of tables, columns, constraints and types. Part "statements" looks at the
parametrised statements that insert, update and delete rows. Part "others" compares the literals and names in the scripts of
dialects without a reference database with the texts they must denote.
"""

import copy
import json

from hypothesis import strategies as st

import drivers
import edits
import migrate
import refdb
import schema as S
import sqllex
from vh import Part, Result, check, check_equal

PROPERTY = "C07"
RULE = "at least one text with a quote, backslash, comment mark, line break, placeholder or separator is part of a statement"
ASSUMPTIONS = [
    "no NUL characters (no database stores them in names or texts)",
    "PostgreSQL runs with standard_conforming_strings, MySQL with ANSI_QUOTES and without NO_BACKSLASH_ESCAPES (as the "
    "connection sets up), Delta Lake with double-quoted identifiers",
    "descriptions in Python source are single-line with single blanks within and none at either end (doc-strings are normalised); "
    "line breaks in descriptions occur in schema models only",
    "the database of Microsoft SQL Server has a UTF-8 collation",
]

FRAGMENTS = ["'", '"', "`", "\\", "''", '""', "\\'", "--", "/*", "*/", ";", "; ", "#", "%", "%s", "%%", "?", "$1", ":1", "{", "}", "[", "]", "]]", "(", ")", ",", ".", "=", "@x", "&", "a", "B", "x1", " ", "ä", "日", "ſ", "E'", "N'", "\\n", "DROP TABLE x", "pysqlsync$"]
BREAKS = ["\n", "\r", "\t", ";\n", "\n;", ";\r\n", "\x1a", "\b", "\f", "'\n", ";\n--"]
HOSTILE = set("'\"`\\;%?$:#-/*{}[]\n\r\t\b\f\x1a")


def text(max_size=6, breaks=True):
    return st.lists(st.sampled_from(FRAGMENTS + (BREAKS if breaks else [])), min_size=1, max_size=max_size).map("".join)


def name():
    return text(4, False).filter(lambda s: s.strip() == s and s and len(s.encode()) <= 24)


def nasty(texts):
    return any(HOSTILE & set(t) for t in texts)


# --------------------------------------------------------------------------------------- renaming texts in schemas


def walk_texts(spec, f):
    "Applies a function (kind, text, limit) to all texts of a specification, in place."
    for m in spec["modules"]:
        if m["ns"] is not None:
            m["ns"] = f("ns", m["ns"], None)
        for e in m["enums"]:
            e["members"] = [[n, f("label", v, 64) if isinstance(v, str) else v] for n, v in e["members"]]
        for kind in ("structs", "entities"):
            for c in m[kind]:
                if c.get("doc") is not None:
                    c["doc"] = f("doc", c["doc"], None)
                for fd in c["fields"]:
                    if fd.get("doc") is not None:
                        fd["doc"] = f("doc", fd["doc"], None)
                    if isinstance(fd.get("default"), str):
                        t = fd["type"]
                        fd["default"] = f("default", fd["default"], t[1] if t[0] == "max" else None)
                    walk_literals(fd["type"], f)
    return spec


def walk_literals(t, f):
    if t[0] in ("list", "set"):
        walk_literals(t[1], f)
    elif t[0] in ("literal", "litunion"):
        t[1] = [f("label", v, 20) if isinstance(v, str) else v for v in t[1]]


def doc_text():
    return text(6, False).map(lambda s: "x" + s + ".").filter(lambda s: ":" not in s and "  " not in s)


@st.composite
def sources(draw, dialects=S.RELATIONAL):
    o = draw(S.options(dialects, **({} if draw(st.booleans()) else {"initialize_tables": True})))
    clean = draw(S.schemas(o, max_modules=2, max_entities=2))
    spec2 = draw(edits.edited(o, clean, 3, edits.EDITS)) if "delta" not in dialects else None
    texts = {}
    walk_texts(copy.deepcopy(clean), lambda k, t, n: texts.setdefault((k, t), None) or t)
    if spec2:
        walk_texts(copy.deepcopy(spec2), lambda k, t, n: texts.setdefault((k, t), None) or t)
    used = set()
    rename = []
    for k, t in texts:
        if draw(st.integers(0, 3)) == 0:
            new = t
        elif k == "ns":
            new = draw(name())
        elif k == "doc":
            new = draw(doc_text())
        elif k == "label":
            new = draw(text(5).filter(lambda s: len(s) <= 20 and s.strip() == s))
        else:
            new = draw(text(5))
        while (k, new) in used:
            new = new + "z"
        used.add((k, new))
        rename.append([k, t, new])
    return {"opts": o, "source": clean, "target": spec2, "rename": rename}


def renamed(case, which):
    table = {(k, t): new for k, t, new in case["rename"]}
    return walk_texts(copy.deepcopy(case[which]), lambda k, t, n: table.get((k, t), t)[: n or None])


def literals_of(sql, dialect):
    "Texts of string literals, including those in statements that are executed dynamically."
    out = []
    for toks in sqllex.split(sqllex.tokenize(sql, dialect)):
        out += [v for k, v in toks if k == "str"]
    return out


def allowed_texts(*specs):
    out = {"Class."}
    for s in specs:
        walk_texts(copy.deepcopy(s), lambda k, t, n: out.add(t) or t)
    return out


def sent(dialect, sql):
    "The statements the driver is handed when a script is executed."
    if dialect not in drivers.SCRIPT_DIALECTS:
        return
    backend = drivers.Backend()
    ctx = drivers.make_context(dialect, backend)
    drivers.run_async(ctx.execute(sql))
    got = []
    for event in backend.log:
        check_equal(event[0], "execute", "kind of driver call")
        try:
            got += [t for t in sqllex.tokenize(event[1], dialect) if t != ("op", ";")]
        except sqllex.SqlSyntaxError as e:
            check(False, f"script is cut into pieces that are no statements: {e}\n{event[1]!r}")
    check_equal(got, [t for t in sqllex.tokenize(sql, dialect) if t != ("op", ";")], "tokens that reach the driver")


def defaults_of(db, spec, g, b):
    "Text defaults in the database are those of the fields."
    from pysqlsync.base import ClassRef

    for i, m in enumerate(spec["modules"]):
        for e in m["entities"]:
            tid = g.get_qualified_id(ClassRef(b.cls(i, e["name"])))
            t = db.tables[(tid.scope_id or "", tid.local_id)]
            for f in e["fields"]:
                if isinstance(f.get("default"), str) and f["type"][0] in ("str", "max"):
                    d = t.cols[f["name"]].default
                    got = [v for k, v in d if k == "str"] if d else None
                    check_equal(got, [f["default"]], f"default of {e['name']}.{f['name']}")


def run_source(case):
    opts = case["opts"]
    dialect = opts["dialect"]
    FormationError = migrate.formation_error()
    source = renamed(case, "source")
    scripts = []
    db = refdb.RefDB(dialect)
    db.relax_df_names = True
    with S.Build(source) as b:
        g = S.make_generator(opts, b)
        sql = g.create(modules=b.modules)
        texts = allowed_texts(source)
        if sql:
            scripts.append(sql)
            migrate.execute(db, sql, "creation script")
        migrate.matches(db, g.state, dialect, sql, "schema differs from model")
        defaults_of(db, source, g, b)
        for i, m in enumerate(source["modules"]):
            for e in m["enums"]:
                tid = g.get_qualified_id(_ref(b.cls(i, e["name"])))
                key = (tid.scope_id or "", tid.local_id)
                labels = sorted(str(v) for _, v in e["members"])
                if key in db.tables and opts["initialize_tables"]:
                    check_equal(sorted(str(r["value"]) for r in db.tables[key].rows), labels, f"contents of lookup table {key}")
                if key in db.types:
                    check_equal(sorted(db.types[key].values), labels, f"labels of type {key}")
    if case["target"] is not None:
        target = renamed(case, "target")
        texts |= allowed_texts(target)
        with S.Build(target) as b:
            model = migrate.target_model(opts, b)
            try:
                sql = g.get_mutate_stmt(model)
            except FormationError:
                sql = None
            else:
                if sql:
                    scripts.append(sql)
                    migrate.execute(db, sql)
                migrate.matches(db, model, dialect, sql, described=dialect != "snowflake")
                g.state = model
            sql = g.drop()
            if sql:
                scripts.append(sql)
                migrate.execute(db, sql, "drop script")
            check(not db.tables and not db.types, "objects remain after dropping the schema")
    known = texts | {t.split("\n")[0] for t in texts} | {""}
    for sql in scripts:
        for v in literals_of(sql, dialect):
            if v not in known and not v.startswith("CREATE SCHEMA ") and not looks_like_value(v):
                check(False, f"literal {v!r} denotes none of the texts {sorted(texts)}\n{sql}")
        sent(dialect, sql)
    used = [t for t in texts if any(t in literals_of(s, dialect) for s in scripts)]
    return Result(nasty(used), [dialect, "/".join(S.effective(opts)), *({"label", "doc", "default"} & {k for k, _, n in case["rename"] if n in used})])


def looks_like_value(v):
    "Literals of dates and times."
    return bool(v) and all(c in "0123456789-: +.T" for c in v)


def _ref(cls):
    from pysqlsync.base import ClassRef

    return ClassRef(cls)


# ------------------------------------------------------------------------------------- models with hostile names


@st.composite
def models(draw, dialects=S.RELATIONAL):
    d = draw(st.sampled_from(dialects))
    em = "TYPE" if d == "postgresql" else "INLINE" if d == "mysql" else None
    names = draw(st.lists(name(), min_size=20, max_size=20, unique_by=lambda s: s.lower()))
    it = iter(names)
    ns = draw(st.one_of(st.none(), name()))
    doc = st.one_of(st.none(), text(6).filter(lambda s: s.strip()))
    enums = []
    labels = st.lists(text(4).filter(lambda s: s.strip() == s), min_size=1, max_size=3, unique_by=lambda s: s.lower())
    if em:
        enums.append({"name": next(it), "labels": draw(labels)})
    structs = []
    if d == "postgresql" and draw(st.booleans()):
        structs.append({"name": next(it), "doc": draw(doc), "members": [{"name": next(it), "doc": draw(doc)}, {"name": next(it), "doc": None}]})
    tables = []
    for i in range(draw(st.integers(1, 2))):
        cols = [{"name": next(it), "type": "int", "nullable": False, "doc": draw(doc)}]
        for _ in range(draw(st.integers(1, 2))):
            t = draw(st.sampled_from(["int", "text", "text", "enum"] if enums else ["int", "text"]))
            c = {"name": next(it), "type": t, "nullable": draw(st.booleans()), "doc": draw(doc)}
            if t == "text":
                c["default"] = draw(st.one_of(st.none(), text(5).filter(lambda s: len(s) <= 40)))
            cols.append(c)
        cons = []
        if i and draw(st.booleans()):
            cols.append({"name": next(it), "type": "int", "nullable": True, "doc": None})
            cons.append({"kind": "fk", "name": next(it), "col": cols[-1]["name"], "to": 0})
        if cols[1]["type"] != "enum" and draw(st.booleans()):
            cons.append({"kind": "uq", "name": next(it), "col": cols[1]["name"]})
        if cols[1]["type"] == "text" and draw(st.booleans()):
            cons.append({"kind": "ch", "name": next(it), "col": cols[1]["name"], "labels": draw(labels)})
        tables.append({"name": next(it), "cols": cols, "cons": cons, "doc": draw(doc)})
    # a second state: descriptions, defaults and names change
    change = draw(st.sampled_from(["same", "docs", "defaults", "drop", "add", "nothing"]))
    return {"dialect": d, "ns": ns, "enums": enums, "structs": structs, "tables": tables, "change": change, "extra": [next(it), draw(text(5))]}


def build_catalog(g, case, changed=False):
    from pysqlsync.formation.object_types import Catalog, CheckConstraint, ConstraintReference, EnumType, ForeignConstraint, StructMember, UniqueConstraint
    from pysqlsync.model.data_types import SqlEnumType, SqlIntegerType, SqlUserDefinedType, SqlVariableCharacterType, constant
    from pysqlsync.model.id_types import LocalId, PrefixedId, QualifiedId

    d, f = case["dialect"], g.factory
    ns = case["ns"]
    qid = (lambda n: PrefixedId(ns, n)) if d in S.PREFIXED else (lambda n: QualifiedId(ns, n))
    change = case["change"] if changed else "nothing"
    extra_name, extra_text = case["extra"]

    def doc(x):
        return extra_text if change == "docs" else x

    def col(c):
        ty = SqlIntegerType(4)
        if c["type"] == "text":
            ty = SqlVariableCharacterType(40)
        elif c["type"] == "enum":
            e = case["enums"][0]
            ty = SqlUserDefinedType(qid(e["name"])) if d == "postgresql" else SqlEnumType(e["labels"])
        default = c.get("default")
        if change == "defaults" and c["type"] == "text":
            default = extra_text
        return f.column_class(LocalId(c["name"]), ty, c["nullable"], default=constant(default) if default is not None else None, description=doc(c["doc"]))

    tables = []
    for t in case["tables"]:
        cons = []
        for k in t["cons"]:
            if change == "drop":
                continue
            if k["kind"] == "fk":
                other = case["tables"][k["to"]]
                cons.append(ForeignConstraint(LocalId(k["name"]), (LocalId(k["col"]),), ConstraintReference(qid(other["name"]), (LocalId(other["cols"][0]["name"]),))))
            elif k["kind"] == "uq":
                cons.append(UniqueConstraint(LocalId(k["name"]), (LocalId(k["col"]),)))
            else:
                vals = ", ".join(f.constant(v) for v in k["labels"])
                cons.append(CheckConstraint(LocalId(k["name"]), f"{LocalId(k['col'])} IN ({vals})"))
        cols = [col(c) for c in t["cols"]]
        if change == "add":
            cols.append(f.column_class(LocalId(extra_name), SqlVariableCharacterType(40), True, description=extra_text))
        if change == "drop" and len(t["cols"]) > 2:
            del cols[2:]
        tables.append(f.table_class(name=qid(t["name"]), columns=cols, primary_key=(LocalId(t["cols"][0]["name"]),), constraints=cons or None, description=doc(t["doc"])))
    enums = [EnumType(qid(e["name"]), e["labels"] + ([extra_text] if change == "add" else [])) for e in case["enums"]] if d == "postgresql" else []
    structs = [
        f.struct_class(name=qid(s["name"]), members=[StructMember(LocalId(m["name"]), SqlIntegerType(4), doc(m["doc"])) for m in s["members"]], description=doc(s["doc"]))
        for s in case["structs"]
    ]
    nsid = LocalId(ns) if ns is not None and d not in S.PREFIXED else LocalId("")
    return Catalog([f.namespace_class(nsid, enums=enums, structs=structs, tables=tables)])


def model_texts(case):
    out = {case["extra"][1]}
    for e in case["enums"]:
        out |= set(e["labels"])
    for s in case["structs"]:
        out |= {s["doc"], *(m["doc"] for m in s["members"])}
    for t in case["tables"]:
        out |= {t["doc"]}
        for c in t["cols"]:
            out |= {c["doc"], c.get("default")}
        for k in t["cons"]:
            out |= set(k.get("labels", []))
    if case["ns"]:
        out.add(case["ns"])
    out.discard(None)
    return out | {t.split("\n")[0] for t in out} | {""}


def run_models(case):
    from pysqlsync.factory import get_dialect
    from pysqlsync.base import GeneratorOptions

    d = case["dialect"]
    g = get_dialect(d).create_generator(GeneratorOptions())
    db = refdb.RefDB(d)
    db.relax_df_names = True
    FormationError = migrate.formation_error()
    texts = model_texts(case)
    used = set()

    def step(what, model):
        try:
            sql = g.get_mutate_stmt(model)
        except FormationError:
            return False
        if sql:
            try:
                lits = literals_of(sql, d)
            except sqllex.SqlSyntaxError as e:
                check(False, f"{what} does not lex: {e}\n{sql}")
            migrate.execute(db, sql, what)
            for v in lits:
                check(v in texts or v.startswith("CREATE SCHEMA "), lambda: f"literal {v!r} denotes none of the texts {sorted(texts)}\n{sql}")
            used.update(lits)
            used.update(v for k, v in sqllex.tokenize(sql, d) if k == "id")
            sent(d, sql)
        migrate.matches(db, model, d, sql, f"after {what}, schema differs from model")
        g.state = model
        return True

    step("creation", build_catalog(g, case))
    # names in the database, independently of the model
    prefix = f"{case['ns']}__" if d in S.PREFIXED and case["ns"] is not None else ""
    scope = "" if d in S.PREFIXED else case["ns"] or ""
    check_equal(sorted(db.tables), sorted((scope, prefix + t["name"]) for t in case["tables"]), "tables")
    for t in case["tables"]:
        got = db.tables[(scope, prefix + t["name"])]
        check_equal(list(got.cols), [c["name"] for c in t["cols"]], f"columns of {t['name']!r}")
        check_equal(sorted(k for k, c in got.cons.items() if c.kind in ("fk", "unique", "check")), sorted(k["name"] for k in t["cons"]), f"constraints of {t['name']!r}")
        for c in t["cols"]:
            dflt = got.cols[c["name"]].default
            check_equal([v for k, v in dflt if k == "str"] if dflt else [], [c["default"]] if c.get("default") is not None else [], f"default of {c['name']!r}")
    for e in case["enums"]:
        if d == "postgresql":
            check_equal(list(db.types[(scope, e["name"])].values), e["labels"], f"labels of {e['name']!r}")
    if case["change"] != "nothing":
        ok = step("migration", build_catalog(g, case, True))
    else:
        ok = True
    sql = g.drop()
    if sql:
        migrate.execute(db, sql, "drop script")
        sent(d, sql)
    check(not db.tables and not db.types, "objects remain after dropping the schema")
    return Result(nasty(used), [d, case["change"] if ok else "refused"])


# ----------------------------------------------------------------------------------------- parametrised statements


@st.composite
def statements(draw):
    return {
        "dialect": draw(st.sampled_from(S.RELATIONAL + ("redshift",))),
        "ns": draw(st.one_of(st.none(), name())),
        "table": draw(name()),
        "cols": draw(st.lists(name(), min_size=2, max_size=4, unique_by=lambda s: s.lower())),
        "kind": draw(st.sampled_from(["insert", "merge", "upsert", "delete"])),
    }


def run_statements(case):
    from pysqlsync.base import GeneratorOptions
    from pysqlsync.factory import get_dialect
    from pysqlsync.model.data_types import SqlIntegerType
    from pysqlsync.model.id_types import LocalId, PrefixedId, QualifiedId

    d = case["dialect"]
    g = get_dialect(d).create_generator(GeneratorOptions())
    ns = case["ns"]
    tid = PrefixedId(ns, case["table"]) if d in S.PREFIXED else QualifiedId(ns, case["table"])
    cols = case["cols"]
    t = g.factory.table_class(
        name=tid,
        columns=[g.factory.column_class(LocalId(c), SqlIntegerType(4), False) for c in cols],
        primary_key=(LocalId(cols[0]),),
    )
    stmt = getattr(g, f"get_table_{case['kind']}_stmt")(t)
    n = 1 if case["kind"] == "delete" else len(cols)
    if d == "mysql":
        # the driver formats (a part of) the statement with the values
        try:
            stmts = drivers.mysql_statements(stmt, [tuple(range(1000, 1000 + n))])
        except (TypeError, ValueError) as e:
            check(False, f"statement cannot be formatted with {n} values: {e}\n{stmt}")
        check_equal(len(stmts), 1, "statements sent by the driver")
        toks = sqllex.tokenize(stmts[0], d)
        check_equal([int(v) for k, v in toks if k == "num"], list(range(1000, 1000 + n)), f"values in {stmts[0]}")
    else:
        toks = sqllex.tokenize(stmt, d)
        check_equal(sorted({v for k, v in toks if k == "ph"}), list(range(1, n + 1)), f"placeholders in {stmt}")
    check_equal(len(sqllex.split(toks)), 1, f"statements in {stmt}")
    full = f"{ns}__{case['table']}" if d in S.PREFIXED and ns is not None else case["table"]
    scope = [ns] if ns is not None and d not in S.PREFIXED else []
    ids = [v for k, v in toks if k == "id"]
    known = set(cols) | {full, *scope}
    check(set(ids) <= known, lambda: f"unknown names {set(ids) - known} in {stmt}")
    want = [cols[0]] if case["kind"] == "delete" else cols
    check(set(want) <= set(ids), lambda: f"names {set(want) - set(ids)} are missing in {stmt}")
    first = [v for k, v in toks if k == "id"][: len(scope) + 1]
    check_equal(first, [*scope, full], f"table name in {stmt}")
    if case["kind"] == "insert":
        check_equal(ids[len(scope) + 1 :], cols, f"columns in {stmt}")
    return Result(nasty(known), [d, case["kind"]])


# ------------------------------------------------------------------------------------------------- other dialects


def run_others(case):
    opts = case["opts"]
    d = opts["dialect"]
    source = renamed(case, "source")
    with S.Build(source) as b:
        g = S.make_generator(opts, b)
        sql = g.create(modules=b.modules)
        if not sql:
            return Result(False, [d])
        try:
            lits = literals_of(sql, d)
        except sqllex.SqlSyntaxError as e:
            check(False, f"script does not lex: {e}\n{sql}")
        texts = allowed_texts(source)
        for v in lits:
            check(v in texts or v == "" or looks_like_value(v), lambda: f"literal {v!r} denotes none of the texts {sorted(texts)}\n{sql}")
        known = set()
        for ns in g.state.namespaces.values():
            known.add(ns.name.local_id)
            for x in [*ns.enums.values(), *ns.structs.values()]:
                known |= {x.name.local_id, x.name.scope_id}
            for x in ns.structs.values():
                known |= {m.name.local_id for m in x.members.values()}
            for t in ns.tables.values():
                known |= {t.name.local_id, t.name.scope_id, t.primary_key_constraint_id.local_id}
                known |= {c.name.local_id for c in t.columns.values()}
                known |= {c.name.local_id for c in t.constraints.values()}
        docs = [x for m in source["modules"] for e in m["entities"] for x in [e.get("doc"), *(f.get("doc") for f in e["fields"] if f["type"][0] in S.SIMPLE)] if x]
        if d in ("redshift", "snowflake", "delta"):
            for x in docs:
                check(x in lits, lambda: f"description {x!r} is missing\n{sql}")
        inline = {f["name"] for m in source["modules"] for s in m["structs"] for f in s["fields"]}
        for k, v in sqllex.tokenize(sql, d):
            if k == "id":
                check(v in known or v in inline, lambda: f"unknown name {v!r}\n{sql}")
        spaces = [m["ns"] for m in source["modules"] if m["ns"] is not None and m["entities"]]
        ids = {v for k, v in sqllex.tokenize(sql, d) if k == "id"}
        check(set(spaces) <= ids, lambda: f"schemas {set(spaces) - ids} are missing\n{sql}")
        sent(d, sql)
        db = refdb.RefDB(d)
        try:
            db.execute(sql)
        except (refdb.DBError, sqllex.SqlSyntaxError) as e:
            check(False, f"script fails: {e}\n{sql}")
        gap = S.diff(db.snapshot(), S.expected(g.state, d))
        check(not gap, lambda: "schema differs from model: " + "; ".join(gap[:5]) + "\n" + sql)
    return Result(nasty(lits), [d])


# ------------------------------------------------------------------------------------- scripts handed to the driver


SPLIT = ("oracle", "redshift")  # drivers that take one statement at a time


@st.composite
def scripts(draw):
    dialect = draw(st.sampled_from(["oracle", "redshift", "oracle", "redshift", "postgresql", "mysql", "mssql"]))
    quotes = {"lit": lambda t: "'" + t.replace("'", "''") + "'", "id": lambda t: '"' + t.replace('"', '""') + '"'}
    literal = text(5).map(quotes["lit"])
    if dialect in ("redshift", "postgresql"):
        literal = st.one_of(literal, text(5).map(lambda t: "E'" + t.replace("\\", "\\\\").replace("'", "\\'") + "'"))
    elif dialect == "mysql":
        literal = text(5).map(lambda t: quotes["lit"](t.replace("\\", "\\\\")))
    piece = st.one_of(
        literal,
        name().map(quotes["id"]),
        st.sampled_from(["x", "SELECT", "INSERT INTO", "(", ")", ",", "=", "1", "||", "E", "note"]),
    )
    comment = st.one_of(
        text(4).filter(lambda t: not set("\n\r") & set(t)).map(lambda t: f"-- {t}\n"),
        # a nested comment is one comment in some of the products only
        text(4).filter(lambda t: "*/" not in t and "/*" not in t and not t.startswith("/") and not t.endswith("*") and not t.endswith("/") and t[0] not in "+!*").map(lambda t: f"/* {t} */"),
    )
    if dialect != "mysql":
        comment = st.one_of(comment, st.sampled_from(["--\n", "--;\n", "--'\n", "--x;\n"]))
    gap = st.one_of(st.just(" "), st.just(" "), st.just("\n"), comment.map(lambda c: f" {c} "))
    out = []
    for _ in range(draw(st.integers(1, 4))):
        pieces = draw(st.lists(st.tuples(gap, piece), min_size=1, max_size=6))
        out.append("DROP" + "".join(g + p for g, p in pieces) + draw(st.sampled_from([";", ";", " ;", ";;" if dialect not in SPLIT else ";"])))
    return {"dialect": dialect, "statements": out, "end": draw(st.sampled_from(["", "\n", "\n\n"]))}


def run_script(case):
    dialect = case["dialect"]
    script = "\n".join(case["statements"]) + case["end"]
    lexed = "postgresql" if dialect == "redshift" else dialect
    want = [s for t in case["statements"] for s in sqllex.split(sqllex.tokenize(t, lexed))]
    if len(want) != len(case["statements"]):
        return Result(False, ["not separable"])
    store = drivers.Backend()
    ctx = drivers.make_context(dialect, store)
    drivers.run_async(ctx.execute(script))
    sent = []
    for e in store.log:
        check_equal(e[0], "execute", "kind of call")
        try:
            found = sqllex.split(sqllex.tokenize(e[1], lexed))
        except sqllex.SqlSyntaxError as x:
            check(False, f"{dialect}: the driver is given {e[1]!r}, which is no statement ({x}), of script {script!r}")
        if dialect in SPLIT:
            check_equal(len(found), 1, f"{dialect}: statements in {e[1]!r}, of script {script!r}")
        sent += found
    check_equal(sent, want, f"{dialect}: statements of script {script!r}")
    return Result(len(want) > 1 and any(";" in s[:-1] for s in case["statements"]), [dialect])


PARTS = [
    Part("scripts", scripts, run_script, quick=800, thorough=15000),
    Part("source", sources, run_source, quick=500, thorough=10000),
    Part("objects", models, run_models, quick=500, thorough=12000),
    Part("statements", statements, run_statements, quick=600, thorough=8000),
    Part("altered", lambda: sources(("redshift", "snowflake", "trino")), run_source, quick=300, thorough=6000),
    Part("others", lambda: sources(("redshift", "delta", "snowflake", "trino")), run_others, quick=250, thorough=5000),
]
