"""
Catalogue of a reference database: the views and tables that an explorer queries, as an in-memory SQLite database.

The queries of the code under test are executed as they are (apart from the few constructs that SQLite has no
counterpart for), hence a wrong join or condition has the effect that it has on a server. What the catalogue reports about
a column of a type, and how it prints a default value, follows the documentation of the vendor (see DESIGN.md).
"""

import decimal
import re
import sqlite3

from drivers import Backend
from refdb import RefDB

# tables in another database, or of another user
ELSEWHERE = ("Person", "a__a", "order__Person")
CURRENT = {"postgresql": "public", "mssql": "dbo", "mysql": "vm", "oracle": "VM"}



def current(db):
    "Name of the schema that unqualified names refer to."
    return getattr(db, "current", CURRENT[db.dialect])


# ------------------------------------------------------------------------------------------------------------- types

PG_TYPES = {
    "BOOLEAN": ("bool", "boolean"),
    "SMALLINT": ("int2", "smallint"),
    "INTEGER": ("int4", "integer"),
    "INT": ("int4", "integer"),
    "BIGINT": ("int8", "bigint"),
    "REAL": ("float4", "real"),
    "DOUBLE PRECISION": ("float8", "double precision"),
    "FLOAT": ("float8", "double precision"),
    "DECIMAL": ("numeric", "numeric"),
    "NUMERIC": ("numeric", "numeric"),
    "TIMESTAMP": ("timestamp", "timestamp"),
    "DATE": ("date", "date"),
    "TIME": ("time", "time"),
    "INTERVAL": ("interval", "interval"),
    "CHAR": ("bpchar", "character"),
    "VARCHAR": ("varchar", "character varying"),
    "TEXT": ("text", "text"),
    "BYTEA": ("bytea", "bytea"),
    "UUID": ("uuid", "uuid"),
    "JSON": ("json", "json"),
    "JSONB": ("jsonb", "jsonb"),
    "INET": ("inet", "inet"),
}
MYSQL_INTS = {"TINYINT": 3, "SMALLINT": 5, "INTEGER": 10, "INT": 10, "BIGINT": 19}


def take_apart(type):
    "Words before the parentheses, numbers in parentheses, words after them, text labels."
    words, nums, tail, strs = [], [], [], []
    seen = False
    for k, v in type:
        if (k, v) == ("op", "("):
            seen = True
        elif k == "word":
            (tail if seen else words).append(v)
        elif k == "num":
            nums.append(int(v))
        elif k == "str":
            strs.append(v)
    return words, nums, tail, strs


def pg_type(type):
    "Name of a built-in type, its full definition, and whether the type is an array."
    words, nums, tail, _ = take_apart(type)
    words, tail = list(words), list(tail)
    array = "ARRAY" in words + tail
    words, tail = [w for w in words if w != "ARRAY"], [w for w in tail if w != "ARRAY"]
    zone = ""
    for where in (words, tail):
        if where[-3:] == ["WITH", "TIME", "ZONE"]:
            zone = " with time zone"
            del where[-3:]
        elif where[-3:] == ["WITHOUT", "TIME", "ZONE"]:
            del where[-3:]
    assert not tail, type
    name, text = PG_TYPES[" ".join(words)]
    if name == "numeric" and len(nums) == 1:
        nums = nums + [0]
    if name == "bpchar" and not nums:
        nums = [1]
    if name == "float8" and nums:
        name, text = ("float4", "real") if nums[0] <= 24 else (name, text)
        nums = []
    args = f"({','.join(map(str, nums))})" if nums else ""
    if name in ("timestamp", "time"):
        text = f"{text}{args}{zone or ' without time zone'}"
        name += "tz" if zone else ""
    else:
        text += args
    return name, text, array


def mysql_type(type):
    "data_type, column_type, character_maximum_length, numeric_precision, numeric_scale, datetime_precision"
    words, nums, tail, strs = take_apart(type)
    unsigned = "UNSIGNED" in words + tail
    words = [w for w in words if w != "UNSIGNED"]
    name = " ".join(words)
    n = nums[0] if nums else None
    if name == "BOOLEAN":
        return "tinyint", "tinyint(1)", None, 3, 0, None
    if name in MYSQL_INTS:
        base = "int" if name == "INTEGER" else name.lower()
        precision = MYSQL_INTS[name]
        if unsigned and name == "BIGINT":
            precision = 20
        return base, base + (f"({n})" if n == 1 and base == "tinyint" else "") + (" unsigned" if unsigned else ""), None, precision, 0, None
    if name == "FLOAT" and (n is None or n <= 24):
        return "float", "float", None, 12, None, None
    if name in ("FLOAT", "REAL", "DOUBLE", "DOUBLE PRECISION"):
        return "double", "double", None, 22, None, None
    if name in ("DECIMAL", "NUMERIC"):
        p, s = (nums + [0])[:2] if nums else (10, 0)
        return "decimal", f"decimal({p},{s})", None, p, s, None
    if name in ("DATETIME", "TIMESTAMP", "TIME"):
        base = name.lower()
        return base, base + (f"({n})" if n else ""), None, None, None, n or 0
    if name in ("DATE", "JSON"):
        return name.lower(), name.lower(), None, None, None, None
    if name in ("CHAR", "VARCHAR", "BINARY", "VARBINARY"):
        base = name.lower()
        return base, f"{base}({n or 1})", n or 1, None, None, None
    lengths = {"TINY": 255, "": 65535, "MEDIUM": 16777215, "LONG": 4294967295}
    m = re.fullmatch("(TINY|MEDIUM|LONG|)(TEXT|BLOB)", name)
    if m:
        return name.lower(), name.lower(), lengths[m.group(1)], None, None, None
    if name == "ENUM" or words[0] == "ENUM":
        labels = ",".join("'" + s.replace("\\", "\\\\").replace("\n", "\\n").replace("\r", "\\r").replace("'", "''") + "'" for s in strs)
        return "enum", f"enum({labels})", max(map(len, strs)), None, None, None
    raise KeyError(name)


def mssql_type(type):
    "data_type, character_maximum_length, numeric_precision, numeric_scale, datetime_precision"
    words, nums, tail, _ = take_apart(type)
    name = " ".join(words)
    n = nums[0] if nums else None
    if name == "BIT":
        return "bit", None, None, None, None
    ints = {"TINYINT": 3, "SMALLINT": 5, "INT": 10, "INTEGER": 10, "BIGINT": 19}
    if name in ints:
        return "int" if name == "INTEGER" else name.lower(), None, ints[name], 0, None
    if name == "REAL" or name == "FLOAT" and n is not None and n <= 24:
        return "real", None, 24, None, None
    if name in ("FLOAT", "DOUBLE PRECISION"):
        return "float", None, 53, None, None
    if name in ("DECIMAL", "NUMERIC"):
        p, s = (nums + [0])[:2] if nums else (18, 0)
        return name.lower(), None, p, s, None
    if name in ("DATETIME2", "TIME"):
        return name.lower(), None, None, None, 7 if n is None else n
    if name == "DATE":
        return "date", None, None, None, 0
    if name in ("CHAR", "NCHAR", "VARCHAR", "NVARCHAR", "BINARY", "VARBINARY"):
        return name.lower(), -1 if tail == ["MAX"] else n or 1, None, None, None
    if name == "TEXT":
        return "text", 2147483647, None, None, None
    if name == "UNIQUEIDENTIFIER":
        return "uniqueidentifier", None, None, None, None
    raise KeyError(name)


def oracle_type(type):
    "data_type, data_length, data_precision, data_scale, char_length"
    words, nums, tail, _ = take_apart(type)
    name = " ".join(words)
    n = nums[0] if nums else None
    if name == "NUMBER":
        if nums:
            return "NUMBER", 22, n, (nums + [0])[1], 0
        return "NUMBER", 22, None, None, 0
    if name in ("DECIMAL", "NUMERIC", "INTEGER", "INT", "SMALLINT"):
        return "NUMBER", 22, n, (nums + [0])[1] if nums else 0, 0
    if name in ("REAL", "FLOAT", "DOUBLE PRECISION"):
        return "FLOAT", 22, n or (63 if name == "REAL" else 126), None, 0
    if name == "BOOLEAN":
        return "BOOLEAN", 1, None, None, 0
    if name in ("VARCHAR2", "VARCHAR"):
        return "VARCHAR2", n, None, None, n
    if name == "CHAR":
        return "CHAR", n or 1, None, None, n or 1
    if name in ("CLOB", "BLOB"):
        return name, 4000, None, None, 0
    if name == "RAW":
        return "RAW", n, None, None, 0
    if name == "DATE":
        return "DATE", 7, None, None, 0
    if name == "TIMESTAMP" or name.startswith("TIMESTAMP "):
        p = 6 if n is None else n
        zone = " WITH TIME ZONE" if (words + tail)[-3:] == ["WITH", "TIME", "ZONE"] else ""
        return f"TIMESTAMP({p}){zone}", 13 if zone else 11, None, p, 0
    if name == "INTERVAL DAY TO SECOND":
        return "INTERVAL DAY(2) TO SECOND(6)", 11, 2, 6, 0
    if name == "JSON":
        return "JSON", 8200, None, None, 0
    raise KeyError(name)


# ---------------------------------------------------------------------------------------------------------- defaults


def quoted(s):
    return "'" + s.replace("'", "''") + "'"


def number(toks):
    "Text of a number, or None."
    toks = [t for t in toks if t != ("op", "+")]
    sign = ""
    while toks and toks[0] == ("op", "-"):
        sign = "" if sign else "-"
        toks = toks[1:]
    if len(toks) == 1 and toks[0][0] == "num":
        return sign + toks[0][1]
    return None


def strip_parens(toks):
    toks = list(toks)
    while len(toks) > 2 and toks[0] == ("op", "(") and toks[-1] == ("op", ")"):
        toks = toks[1:-1]
    return toks


def pg_default(default, type_text):
    "How the expression of a default value is printed."
    toks = strip_parens(default)
    n = number(toks)
    if n is not None:
        if n.startswith("-"):
            return quoted(n) + ("::numeric" if re.search("[.eE]", n) else "::integer" if -(2**31) <= int(n) else "::bigint")
        if "e" in n.lower():
            return format(__import__("decimal").Decimal(n), "f")
        return quoted(n) + "::bigint" if n.isdigit() and int(n) >= 2**31 else n
    if len(toks) == 1 and toks[0][0] == "word":
        return toks[0][1].lower() if toks[0][1] in ("TRUE", "FALSE") else toks[0][1]
    if len(toks) == 1 and toks[0][0] == "str":
        base = re.sub(r"\([^)]*\)", "", type_text)
        return quoted(toks[0][1]) + "::" + ("bpchar" if base == "character" else base)
    raise NotImplementedError(f"default {default}")


def mysql_default(default, base, scale, moment):
    "column_default (the value, in the form that the column has it) and whether the default is an expression"
    toks = strip_parens(default)
    n = number(toks)
    if n is not None:
        if base == "decimal":
            return str(decimal.Decimal(n).quantize(decimal.Decimal(1).scaleb(-scale), decimal.ROUND_HALF_UP)), False
        if base in ("float", "double"):
            return repr(float(n)).removesuffix(".0"), False
        return n, False
    if len(toks) == 1 and toks[0][0] == "word":
        return {"TRUE": "1", "FALSE": "0", "NULL": None}[toks[0][1]], False
    if len(toks) == 1 and toks[0][0] == "str":
        if default[0] == ("op", "("):
            # special characters are escaped in literals, and again in the text of the expression
            literal = "_utf8mb4'" + toks[0][1].replace("\\", "\\\\").replace("'", "\\'") + "'"
            return literal.replace("\\", "\\\\").replace("'", "\\'"), True
        if base in ("datetime", "time") and moment:
            seconds, _, fraction = toks[0][1].partition(".")
            return f"{seconds}.{fraction:0<{moment}.{moment}}", False
        return toks[0][1], False
    raise NotImplementedError(f"default {default}")


def mssql_default(default):
    "Text of the definition: numbers in double, other constants in single parentheses."
    toks = strip_parens(default)
    n = number(toks)
    if n is not None:
        return f"(({n}))" if not n.startswith("-") else f"((-{n[1:]}))"
    if len(toks) == 1 and toks[0][0] == "str":
        return f"({quoted(toks[0][1])})"
    if len(toks) == 1 and toks[0][0] == "word":
        return f"({toks[0][1]})"
    raise NotImplementedError(f"default {default}")


def oracle_default(default, followed=False):
    "Text as it has been entered, up to what follows."
    out = []
    for k, v in default:
        out.append(quoted(v) if k == "str" else v)
    return re.sub(r"(?<=[-+]) (?=\d)", "", " ".join(out)) + (" " if followed else "")


# ------------------------------------------------------------------------------------------------------- the database


def snapshot(db: RefDB):
    "An SQLite database that has the catalogue of a reference database."
    con = sqlite3.connect(":memory:", isolation_level=None, check_same_thread=False)
    con.execute("PRAGMA case_sensitive_like = ON")
    {"postgresql": _postgresql, "mysql": _mysql, "mssql": _mssql, "oracle": _oracle}[db.dialect](con, db)
    return con


def _table(con, name, columns, rows):
    con.execute(f"CREATE TABLE {name} ({columns})")
    rows = list(rows)[::-1]  # rows are in no particular order
    if rows:
        con.executemany(f"INSERT INTO {name} VALUES ({', '.join('?' * len(rows[0]))})", rows)


def _postgresql(con, db):
    con.execute("ATTACH ':memory:' AS pg_catalog")
    oids = iter(range(16384, 10**9))
    own = current(db)
    namespaces = {n: next(oids) for n in sorted({"pg_catalog", "information_schema", "public", own, *db.schemas} - {""})}
    namespaces[""] = namespaces[own]
    types, elems, attributes, defaults, comments, classes, enums, constraints, keys = [], {}, [], [], [], [], [], [], []
    builtin = {}
    for name in sorted({n for n, _ in PG_TYPES.values()} | {"timestamptz", "timetz", "name", "oid"}):
        builtin[name] = next(oids)
        types.append((builtin[name], name, namespaces["pg_catalog"], 0))
        elems[builtin[name]] = next(oids)
        types.append((elems[builtin[name]], "_" + name, namespaces["pg_catalog"], builtin[name]))
    user, relation = {}, {}
    for key in [*db.types, *db.tables]:
        user[key] = next(oids)
        types.append((user[key], key[1], namespaces[key[0]], 0))
        elems[user[key]] = next(oids)
        types.append((elems[user[key]], "_" + key[1], namespaces[key[0]], user[key]))
    texts = {}

    def ident(s):
        return s if re.fullmatch("[a-z_][a-z0-9_]*", s) else '"' + s.replace('"', '""') + '"'

    def type_of(type):
        "Identifier and definition of a type; dimensions of an array."
        refs = db._type_refs(type)
        if refs:
            key = refs[0]
            text = (ident(key[0]) + "." if key[0] not in ("", own) else "") + ident(key[1])
            array = type[-1] == ("word", "ARRAY") or type[-1] == ("op", "]")
            oid = user[key]
        else:
            name, text, array = pg_type(type)
            oid = builtin[name]
        if array:
            oid, text = elems[oid], text + "[]"
        texts[text] = text
        return oid, text, int(array)

    for key, t in db.types.items():
        if hasattr(t, "values"):
            enums += [(user[key], v, float(i + 1)) for i, v in enumerate(t.values)]
            continue
        relation[key] = next(oids)
        classes.append((relation[key], key[1], namespaces[key[0]], "c"))
        if t.comment is not None:
            comments.append((user[key], 0, t.comment))
        for i, (n, ty) in enumerate(t.members.items()):
            oid, text, dims = type_of(ty)
            attributes.append((relation[key], n, oid, text, 0, dims, "", i + 1))
            if t.member_comments.get(n) is not None:
                comments.append((relation[key], i + 1, t.member_comments[n]))
    # tables are listed in no particular order
    for key, t in sorted(db.tables.items(), key=lambda x: x[0][::-1], reverse=True):
        relation[key] = next(oids)
        classes.append((relation[key], key[1], namespaces[key[0]], "r"))
        if t.comment is not None:
            comments.append((relation[key], 0, t.comment))
        for i, c in enumerate(t.cols.values()):
            oid, text, dims = type_of(c.type)
            required = not c.nullable or c.name in t.pk
            attributes.append((relation[key], c.name, oid, text, int(required), dims, "d" if c.identity else "", i + 1))
            if c.default is not None:
                defaults.append((relation[key], i + 1, pg_default(c.default, text)))
            if c.comment is not None:
                comments.append((relation[key], i + 1, c.comment))
        # system columns
        attributes.append((relation[key], "ctid", builtin["oid"], "oid", 1, 0, "", -1))
        if t.pk_name:
            classes.append((next(oids), t.pk_name, namespaces[key[0]], "i"))
    for key, t in db.tables.items():
        number = {n: i + 1 for i, n in enumerate(t.cols)}
        if t.pk_name:
            constraints.append(("p", t.pk_name, relation[key], 0, f"k{len(constraints)}", None))
            keys += [(constraints[-1][4], number[n], None, i + 1) for i, n in enumerate(t.pk)]
        for c in t.cons.values():
            kind = {"unique": "u", "fk": "f", "check": "c"}[c.kind]
            if kind == "u":
                classes.append((next(oids), c.name, namespaces[key[0]], "i"))
            ref = relation[tuple(c.ref)] if kind == "f" else 0
            constraints.append((kind, c.name, relation[key], ref, f"k{len(constraints)}", "f" if kind == "f" else None))
            if kind == "f":
                there = {n: i + 1 for i, n in enumerate(db.tables[tuple(c.ref)].cols)}
                keys += [(constraints[-1][4], number[a], there[b], i + 1) for i, (a, b) in enumerate(zip(c.cols, c.refcols))]
            else:
                keys += [(constraints[-1][4], number[n], None, i + 1) for i, n in enumerate(c.cols)]
    _table(con, "pg_catalog.pg_namespace", "oid, nspname", [(o, n) for n, o in namespaces.items() if n])
    _table(con, "pg_catalog.pg_type", "oid, typname, typnamespace, typelem", types)
    _table(con, "pg_catalog.pg_class", "oid, relname, relnamespace, relkind", classes)
    _table(con, "pg_catalog.pg_attribute", "attrelid, attname, atttypid, atttypmod, attnotnull, attndims, attidentity, attnum", attributes)
    _table(con, "pg_catalog.pg_attrdef", "adrelid, adnum, adbin", defaults)
    _table(con, "pg_catalog.pg_description", "objoid, objsubid, description", comments)
    _table(con, "pg_catalog.pg_enum", "enumtypid, enumlabel, enumsortorder", enums)
    _table(con, "pg_catalog.pg_constraint", "contype, conname, conrelid, confrelid, conkey, confkey", constraints)
    _table(con, "pg_catalog.con_keys", "conkey, source, target, number", keys)
    con.create_function("format_type", 2, lambda oid, mod: mod)
    con.create_function("pg_get_expr", 2, lambda bin, rel: bin)
    con.create_function("current_schema", 0, lambda: own)


def _ansi_constraints(con, db, schema_of, name_of, pk_name=None):
    tc, kcu, ref = [], [], []
    for key, t in db.tables.items():
        s, n = schema_of(key), name_of(key)
        if t.pk_name:
            pk = pk_name or t.pk_name
            tc.append(("def", s, pk, s, n, "PRIMARY KEY"))
            kcu += [("def", s, pk, s, n, c, i + 1, None, None, None) for i, c in enumerate(t.pk)]
        for c in t.cons.values():
            kind = {"unique": "UNIQUE", "fk": "FOREIGN KEY", "check": "CHECK"}[c.kind]
            tc.append(("def", s, c.name, s, n, kind))
            if c.kind == "check":
                continue
            there = [None] * len(c.cols)
            if c.kind == "fk":
                target = db.tables[tuple(c.ref)]
                rs, rn = schema_of(target.key), name_of(target.key)
                there = [(rs, rn, x) for x in c.refcols]
                name = pk_name or target.pk_name
                if tuple(c.refcols) != tuple(target.pk):
                    name = next(u.name for u in target.cons.values() if u.kind == "unique" and tuple(u.cols) == tuple(c.refcols))
                ref.append(("def", s, c.name, "def", rs, name, n, rn))
            kcu += [("def", s, c.name, s, n, x, i + 1, *(y or (None, None, None))) for i, (x, y) in enumerate(zip(c.cols, there))]
    _table(con, "information_schema.table_constraints", "constraint_catalog, constraint_schema, constraint_name, table_schema, table_name, constraint_type", tc)
    _table(con, "information_schema.key_column_usage", "constraint_catalog, constraint_schema, constraint_name, table_schema, table_name, column_name, ordinal_position, referenced_table_schema, referenced_table_name, referenced_column_name", kcu)
    _table(con, "information_schema.referential_constraints", "constraint_catalog, constraint_schema, constraint_name, unique_constraint_catalog, unique_constraint_schema, unique_constraint_name, table_name, referenced_table_name", ref)


def _mysql(con, db):
    con.execute("ATTACH ':memory:' AS information_schema")
    own = current(db)
    columns = []
    for key, t in db.tables.items():
        for i, c in enumerate(t.cols.values()):
            data_type, column_type, length, precision, scale, moment = mysql_type(c.type)
            extra, default = "auto_increment" if c.identity else "", None
            if c.default is not None:
                default, expression = mysql_default(c.default, data_type, scale, moment)
                if expression:
                    extra = "DEFAULT_GENERATED"
            nullable = "YES" if c.nullable and c.name not in t.pk else "NO"
            columns.append((own, key[1], c.name, i + 1, data_type, nullable, default, length, precision, scale, moment, column_type, extra, c.comment or ""))
    # the catalogue lists the objects of other databases, too
    for n in ELSEWHERE:
        columns.append(("other", n, "elsewhere", 1, "int", "NO", None, None, 10, 0, None, "int", "", ""))
    _table(con, "information_schema.tables", "table_schema, table_name, table_type, table_comment", [(own, k[1], "BASE TABLE", t.comment or "") for k, t in db.tables.items()] + [("other", n, "BASE TABLE", "elsewhere") for n in ELSEWHERE])
    _table(con, "information_schema.columns", "table_schema, table_name, column_name, ordinal_position, data_type, is_nullable, column_default, character_maximum_length, numeric_precision, numeric_scale, datetime_precision, column_type, extra, column_comment", columns)
    _ansi_constraints(con, db, lambda k: own, lambda k: k[1], "PRIMARY")
    con.create_function("database", 0, lambda: own)
    con.create_function("schema", 0, lambda: own)


def _mssql(con, db):
    con.execute("ATTACH ':memory:' AS information_schema")
    con.execute("ATTACH ':memory:' AS sys")
    own = current(db)
    ids = iter(range(1000, 10**9))
    schemas = {own: 1, **{s: next(ids) for s in sorted(db.schemas) if s}}
    columns, tables, cols, dfs = [], [], [], []
    for key, t in db.tables.items():
        s = key[0] or own
        id = next(ids)
        tables.append((id, key[1], schemas[s], 0))
        for i, c in enumerate(t.cols.values()):
            data_type, length, precision, scale, moment = mssql_type(c.type)
            definition = mssql_default(c.default) if c.default is not None else None
            df = 0
            if definition is not None:
                df = next(ids)
                dfs.append((df, c.df_name, id, i + 1, definition))
            cols.append((id, c.name, i + 1, int(c.identity), df))
            nullable = "YES" if c.nullable and c.name not in t.pk else "NO"
            columns.append((s, key[1], c.name, i + 1, data_type, nullable, definition, length, precision, scale, moment))
    _table(con, "information_schema.tables", "table_schema, table_name, table_type", [(k[0] or own, k[1], "BASE TABLE") for k in db.tables])
    _table(con, "information_schema.columns", "table_schema, table_name, column_name, ordinal_position, data_type, is_nullable, column_default, character_maximum_length, numeric_precision, numeric_scale, datetime_precision", columns)
    _ansi_constraints(con, db, lambda k: k[0] or own, lambda k: k[1])
    _table(con, "sys.schemas", "schema_id, name", [(i, n) for n, i in schemas.items()])
    _table(con, "sys.tables", "object_id, name, schema_id, is_ms_shipped", tables)
    _table(con, "sys.columns", "object_id, name, column_id, is_identity, default_object_id", cols)
    _table(con, "sys.default_constraints", "object_id, name, parent_object_id, parent_column_id, definition", dfs)
    con.create_function("schema_name", 0, lambda: own)
    con.create_function("schema_id", 0, lambda: schemas[own])
    con.create_function("schema_id", 1, lambda n: schemas.get(n))


def _oracle(con, db):
    own = current(db)
    tabs, tcomments, columns, ccomments, cons, ccols = [], [], [], [], [], []
    for key, t in db.tables.items():
        n = key[1]
        tabs.append((own, n, "USERS", "VALID", "N", "N", "NO", "NO"))
        tcomments.append((own, n, t.comment))
        for i, c in enumerate(t.cols.values()):
            data_type, length, precision, scale, chars = oracle_type(c.type)
            default = oracle_default(c.default, not c.nullable) if c.default is not None else f'"{own}"."ISEQ$$_{i}".nextval' if c.identity else None
            nullable = "Y" if c.nullable and c.name not in t.pk else "N"
            columns.append((own, n, c.name, i + 1, data_type, None, length, precision, scale, nullable, default, chars, "YES" if c.identity else "NO"))
            ccomments.append((own, n, c.name, c.comment))
        if t.pk_name:
            cons.append((own, t.pk_name, "P", n, None, None))
            ccols += [(own, t.pk_name, n, x, i + 1) for i, x in enumerate(t.pk)]
        for i, c in enumerate(t.cols.values()):
            if not c.nullable or c.name in t.pk:
                # a required column is a check constraint
                cons.append((own, f"SYS_C{len(cons):06}", "C", n, None, None))
                ccols.append((own, cons[-1][1], n, c.name, None))
        for c in t.cons.values():
            kind = {"unique": "U", "fk": "R", "check": "C"}[c.kind]
            there = None
            if kind == "R":
                target = db.tables[tuple(c.ref)]
                there = target.pk_name
                if tuple(c.refcols) != tuple(target.pk):
                    there = next(u.name for u in target.cons.values() if u.kind == "unique" and tuple(u.cols) == tuple(c.refcols))
            cons.append((own, c.name, kind, n, own if there else None, there))
            ccols += [(own, c.name, n, x, i + 1 if kind != "C" else None) for i, x in enumerate(c.cols)]
    tabs.append(("SYS", "DUAL$X", "SYSTEM", "VALID", "N", "N", "NO", "NO"))
    tabs.append(("SYS", "Person", "SYSTEM", "VALID", "N", "N", "NO", "NO"))
    # the catalogue lists the tables of other users, too
    for n in ELSEWHERE:
        tabs.append(("OTHER", n, "USERS", "VALID", "N", "N", "NO", "NO"))
        tcomments.append(("OTHER", n, "elsewhere"))
        columns.append(("OTHER", n, "elsewhere", 1, "NUMBER", None, 22, None, None, "N", None, 0, "NO"))
        ccomments.append(("OTHER", n, "elsewhere", None))
        cons.append(("OTHER", "pk_" + n, "P", n, None, None))
        ccols.append(("OTHER", "pk_" + n, n, "elsewhere", 1))
    _table(con, "dba_tables", "owner, table_name, tablespace_name, status, temporary, secondary, dropped, read_only", tabs)
    _table(con, "dba_tab_comments", "owner, table_name, comments", tcomments)
    _table(con, "dba_tab_columns", "owner, table_name, column_name, column_id, data_type, data_type_owner, data_length, data_precision, data_scale, nullable, data_default, char_length, identity_column", columns)
    _table(con, "dba_col_comments", "owner, table_name, column_name, comments", ccomments)
    _table(con, "dba_constraints", "owner, constraint_name, constraint_type, table_name, r_owner, r_constraint_name", cons)
    _table(con, "dba_cons_columns", "owner, constraint_name, table_name, column_name, position", ccols)
    con.create_function("sys_context", 2, lambda a, b: own)


# ------------------------------------------------------------------------------------------------------------ queries

LITERAL = r"'(?:[^']|'')*'"
MYSQL_LITERAL = r"'(?:[^'\\]|''|\\.)*'"
MYSQL_ESCAPES = {"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a", "%": "\\%", "_": "\\_"}


def mysql_literal(text):
    "String that a literal of MySQL stands for."
    return re.sub(r"''|\\(.)", lambda m: "'" if m.group(1) is None else MYSQL_ESCAPES.get(m.group(1), m.group(1)), text[1:-1], flags=re.S)


def rewrite(sql, dialect=None):
    "Replaces what SQLite has no counterpart for, outside of literals."
    parts = re.split(f"({MYSQL_LITERAL if dialect == 'mysql' else LITERAL})", sql, flags=re.S)
    if dialect == "mysql":
        parts[1::2] = [quoted(mysql_literal(p)) for p in parts[1::2]]
    for i in range(0, len(parts), 2):
        p = parts[i]
        p = re.sub(r"\b(?:pg_catalog|information_schema|sys)\.(\w+)\s*\(", r"\1(", p, flags=re.I)
        p = re.sub(
            r"CROSS\s+JOIN\s+UNNEST\s*\(\s*(\w+)\.conkey\s*,\s*\1\.confkey\s*\)\s+WITH\s+ORDINALITY\s+(?:AS\s+)?(\w+)\s*\(\s*(\w+)\s*,\s*(\w+)\s*,\s*(\w+)\s*\)",
            r"INNER JOIN (SELECT conkey, source AS \3, target AS \4, number AS \5 FROM pg_catalog.con_keys) AS \2 ON \2.conkey = \1.conkey",
            p,
            flags=re.I,
        )
        p = re.sub(
            r"CROSS\s+JOIN\s+UNNEST\s*\(\s*(\w+)\.conkey\s*,\s*\1\.confkey\s*\)\s+(?:AS\s+)?(\w+)\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)",
            r"INNER JOIN (SELECT conkey, source AS \3, target AS \4 FROM pg_catalog.con_keys) AS \2 ON \2.conkey = \1.conkey",
            p,
            flags=re.I,
        )
        parts[i] = p
    return "".join(parts)


class CatalogueError(Exception):
    "The database rejects a query of its catalogue."


class CatalogueBackend(Backend):
    "Executes statements on a reference database, and queries on its catalogue."

    def __init__(self, db: RefDB):
        super().__init__()
        self.db = db
        self._view = None

    def on_execute(self, sql):
        self._view = None
        self.db.execute(sql)

    def on_query(self, sql):
        if self._view is None:
            self._view = snapshot(self.db)
        try:
            cur = self._view.execute(rewrite(sql, self.db.dialect))
        except sqlite3.Error as e:
            raise CatalogueError(f"{e}: {sql}") from None
        names = [d[0].upper() if self.db.dialect == "oracle" else d[0] for d in cur.description]
        return [(names, tuple(self.value(n, v) for n, v in zip(names, row))) for row in cur.fetchall()]

    def value(self, name, v):
        if self.db.dialect == "postgresql" and name.lower() in ("contype", "constraint_type") and v is not None:
            return v.encode()  # type "char"
        if self.db.dialect in ("postgresql", "oracle") and name.lower().startswith("is_") and v in (0, 1):
            return bool(v)
        return v


def described(db: RefDB, type):
    "What the catalogue reports about a column of a type."
    refs = db._type_refs(type)
    if refs:
        return [list(r) for r in refs], any(t in (("word", "ARRAY"), ("op", "]")) for t in type)
    return {"postgresql": pg_type, "mysql": mysql_type, "mssql": mssql_type, "oracle": oracle_type}[db.dialect](type)
