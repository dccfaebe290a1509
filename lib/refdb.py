"""
Reference database: a small, strict, in-memory SQL engine that executes the DDL and DML that pysqlsync emits.

It knows nothing about pysqlsync's objects. It enforces the existence, uniqueness and dependency rules of the
database product it stands for (see DESIGN.md, "Reference database", for the list of rules and their source), so that a
script that mentions an object too early, twice or too late fails here as it would on a server.
"""

import copy
import itertools

from sqllex import SqlSyntaxError, canon, canon_text, split, tokenize  # noqa: F401


class DBError(Exception):
    "The database rejects the statement."


class Col:
    __slots__ = ("name", "type", "nullable", "default", "identity", "comment", "df_name")

    def __init__(self, name, type, nullable, default, identity, comment, df_name=None):
        self.name = name
        self.type = type
        self.nullable = nullable
        self.default = default
        self.identity = identity
        self.comment = comment
        self.df_name = df_name  # name of the default constraint (MSSQL)

    def snap(self):
        return {
            "type": canon(self.type),
            "nullable": self.nullable,
            "default": canon(self.default) if self.default is not None else None,
            "identity": self.identity,
            "comment": self.comment,
        }


class Con:
    __slots__ = ("kind", "name", "cols", "ref", "refcols", "expr")

    def __init__(self, kind, name, cols=(), ref=None, refcols=(), expr=None):
        self.kind, self.name, self.cols = kind, name, tuple(cols)
        self.ref, self.refcols, self.expr = ref, tuple(refcols), expr

    def snap(self):
        d = {"kind": self.kind, "cols": sorted(self.cols) if self.kind == "check" else list(self.cols)}
        if self.kind == "fk":
            d["ref"] = list(self.ref)
            d["refcols"] = list(self.refcols)
        if self.kind == "check":
            d["expr"] = canon(self.expr)
        return d


class Table:
    def __init__(self, key):
        self.key = key
        self.cols = {}
        self.pk_name = None
        self.pk = ()
        self.cons = {}
        self.comment = None
        self.rows = []
        self.next_id = 1

    def snap(self):
        return {
            "columns": {c.name: c.snap() for c in self.cols.values()},
            "pk_name": self.pk_name,
            "pk": list(self.pk),
            "constraints": {n: c.snap() for n, c in self.cons.items()},
            "comment": self.comment,
        }


class EnumT:
    def __init__(self, values):
        self.values = list(values)

    def snap(self):
        return {"enum": sorted(self.values)}


class StructT:
    def __init__(self):
        self.members = {}  # name -> type tokens
        self.member_comments = {}
        self.comment = None

    def snap(self):
        return {
            "members": {n: canon(t) for n, t in self.members.items()},
            "member_comments": dict(self.member_comments),
            "comment": self.comment,
        }


_COMMON = {"SMALLINT", "INTEGER", "INT", "REAL", "DOUBLE PRECISION", "FLOAT", "DECIMAL", "NUMERIC", "CHAR", "VARCHAR", "DATE", "TIMESTAMP"}
BUILTIN = {
    "postgresql": _COMMON | {"BIGINT", "BOOLEAN", "TEXT", "TIME", "INTERVAL", "UUID", "JSON", "JSONB", "BYTEA", "INET"},
    "mysql": _COMMON | {"TINYINT", "BIGINT", "BOOLEAN", "MEDIUMTEXT", "TEXT", "LONGTEXT", "TIME", "DATETIME", "JSON", "BINARY", "VARBINARY", "BLOB", "MEDIUMBLOB", "LONGBLOB", "ENUM", "DOUBLE"},
    "mssql": (_COMMON | {"BIT", "TINYINT", "BIGINT", "NVARCHAR", "NCHAR", "TIME", "DATETIME2", "BINARY", "VARBINARY", "TEXT", "UNIQUEIDENTIFIER"}) - {"TIMESTAMP"},
    "redshift": _COMMON | {"BIGINT", "BOOLEAN", "TEXT", "TIME", "VARBYTE", "SUPER"},
    "oracle": (_COMMON | {"NUMBER", "BOOLEAN", "VARCHAR2", "CLOB", "BLOB", "RAW", "INTERVAL DAY TO SECOND", "JSON"}),
}
# keywords that may follow a data type in a column definition
_AFTER_TYPE = {"NOT", "NULL", "DEFAULT", "GENERATED", "IDENTITY", "AUTO_INCREMENT", "COMMENT", "CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "REFERENCES", "CHARACTER", "COLLATE", "SET", "DROP"}
SCHEMALESS = ("mysql", "oracle")
# dialects known by the form of their statements only: any word is a data type
PARTIAL = ("delta", "snowflake", "trino")


class P:
    "Cursor over the tokens of one statement."

    def __init__(self, toks, db):
        self.t, self.i, self.db = toks, 0, db

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def done(self):
        return self.i >= len(self.t)

    def fail(self, what):
        raise SqlSyntaxError(f"expected {what} at: {canon(self.t[self.i:self.i+12])!r} in {canon(self.t)[:300]!r}")

    def isw(self, *words):
        return all(self.peek(k) == ("word", w) for k, w in enumerate(words))

    def w(self, *words):
        "Accepts a keyword sequence if present."
        if self.isw(*words):
            self.i += len(words)
            return True
        return False

    def need(self, *words):
        if not self.w(*words):
            self.fail(" ".join(words))

    def op(self, o):
        if self.peek() == ("op", o):
            self.i += 1
            return True
        return False

    def needop(self, o):
        if not self.op(o):
            self.fail(o)

    def ident(self):
        k, v = self.peek()
        if k == "id":
            self.i += 1
            return v
        if k == "word":  # unquoted identifier, only used for aliases
            self.i += 1
            return v.lower()
        self.fail("identifier")

    def qid(self):
        a = self.ident()
        if self.op("."):
            b = self.ident()
            if self.db.dialect in SCHEMALESS:
                raise DBError(f"qualified name in a dialect without schemas: {a}.{b}")
            return ("" if a == getattr(self.db, "current", None) else a, b)
        return ("", a)

    def string(self):
        k, v = self.peek()
        if k != "str":
            self.fail("string literal")
        self.i += 1
        return v

    def idlist(self):
        self.needop("(")
        out = [self.ident()]
        while self.op(","):
            out.append(self.ident())
        self.needop(")")
        return out

    def balanced(self, stop_ops=(",", ")"), stop_words=()):
        "Collects tokens of an expression up to a stop token at depth zero."
        out, depth = [], 0
        while not self.done():
            k, v = self.peek()
            if depth == 0 and (k == "op" and v in stop_ops or k == "word" and v in stop_words):
                break
            if (k, v) == ("op", "("):
                depth += 1
            elif (k, v) == ("op", ")"):
                depth -= 1
                if depth < 0:
                    break
            out.append((k, v))
            self.i += 1
        if depth > 0:
            raise SqlSyntaxError(f"unbalanced parentheses in {canon(self.t)[:200]!r}")
        return out

    def parens(self):
        self.needop("(")
        out = self.balanced(stop_ops=(")",))
        self.needop(")")
        return out

    def end(self):
        if not self.done():
            self.fail("end of statement")


class RefDB:
    def __init__(self, dialect):
        self.builtin = BUILTIN.get(dialect, ())
        self.dialect = "postgresql" if dialect == "redshift" else dialect  # shares all rules but has other data types
        self.schemas = {""}
        self.types = {}
        self.tables = {}
        self.statements = 0
        self.relax_df_names = False  # do not enforce uniqueness of MSSQL default constraint names
        self.log = []

    # ------------------------------------------------------------------ helpers

    def clone(self):
        return copy.deepcopy(self)

    def snapshot(self):
        return {
            "schemas": sorted(self.schemas),
            "types": {".".join(k): t.snap() for k, t in self.types.items()},
            "tables": {".".join(k): t.snap() for k, t in self.tables.items()},
        }

    def rows(self, key):
        return self.table(key).rows

    def execute(self, script, params=None):
        "Executes a script; returns the rows of the last SELECT, if any."
        if not isinstance(script, str):
            raise DBError("statement is not a string")
        toks = tokenize(script, self.dialect)
        result = None
        stmts = split(toks)
        if not stmts:
            raise SqlSyntaxError("empty statement")
        for s in stmts:
            self.log.append(canon(s))
            self.statements += 1
            result = self._stmt(P(s, self), params)
        return result

    def table(self, key):
        t = self.tables.get(tuple(key))
        if t is None:
            raise DBError(f"table does not exist: {key}")
        return t

    def _schema(self, name):
        if name not in self.schemas:
            raise DBError(f"schema does not exist: {name!r}")

    def _relation_names(self, schema):
        "Names sharing the namespace of tables in a schema (PostgreSQL: indexes and composite types too)."
        names = {}
        for (s, n), t in self.tables.items():
            if s != schema:
                continue
            names[n] = "table"
            if self.dialect in ("postgresql",):
                if t.pk_name:
                    names[t.pk_name] = "index"
                for c in t.cons.values():
                    if c.kind == "unique":
                        names[c.name] = "index"
        if self.dialect == "postgresql":
            for (s, n), ty in self.types.items():
                if s == schema:
                    names[n] = "type"
        return names

    def _check_new_relation(self, key):
        self._schema(key[0])
        names = self._relation_names(key[0])
        if key[1] in names:
            raise DBError(f"{names[key[1]]} already exists: {key}")

    def _check_con_name(self, table, name, kind):
        "Uniqueness scope of constraint names per product."
        if name in table.cons or (name == table.pk_name and self.dialect != "mysql"):
            raise DBError(f"constraint {name} already exists on table {table.key}")
        if self.dialect == "postgresql":
            if kind in ("unique", "pk") and name in self._relation_names(table.key[0]):
                raise DBError(f"relation {name} already exists")
        elif self.dialect in ("mssql", "oracle"):
            for t in self.tables.values():
                if t.key[0] != table.key[0]:
                    continue
                if name in t.cons or name == t.pk_name:
                    raise DBError(f"constraint name already used in schema: {name}")
                if self.dialect == "mssql":
                    if name == t.key[1]:
                        raise DBError(f"object name already used in schema: {name}")
                    if not (kind == "default" and self.relax_df_names):
                        if any(c.df_name == name for c in t.cols.values()):
                            raise DBError(f"constraint name already used in schema: {name}")
        elif self.dialect == "mysql":
            for t in self.tables.values():
                for c in t.cons.values():
                    if c.name == name and c.kind == kind and kind in ("fk", "check"):
                        raise DBError(f"duplicate constraint name: {name}")

    def _type_refs(self, toks):
        "User-defined types mentioned in a type."
        refs, i = [], 0
        while i < len(toks):
            if toks[i][0] == "id":
                if i + 2 < len(toks) and toks[i + 1] == ("op", ".") and toks[i + 2][0] == "id":
                    refs.append((toks[i][1], toks[i + 2][1]))
                    i += 3
                    continue
                refs.append(("", toks[i][1]))
            i += 1
        return refs

    def _check_type(self, toks):
        if not toks:
            raise SqlSyntaxError("missing data type")
        refs = self._type_refs(toks)
        if refs and not (self.dialect in PARTIAL and toks[:2] == [("word", "STRUCT"), ("op", "<")]):
            if self.dialect not in ("postgresql", "trino"):
                raise DBError(f"user-defined type in a dialect without: {canon(toks)}")
            for r in refs:
                if r not in self.types:
                    raise DBError(f"type does not exist: {r}")
            return
        words = []
        for k, v in toks:
            if k == "word":
                words.append(v)
            else:
                break
        if self.dialect in PARTIAL:
            if not words:
                raise SqlSyntaxError(f"unrecognized data type: {canon(toks)}")
            return
        name = " ".join(words)
        base = name
        if name.endswith(" ARRAY"):
            if self.dialect != "postgresql":
                raise DBError(f"array type not supported: {name}")
            base = name[:-6]
        tail = [v for k, v in toks if k == "word"][len(words):]
        if tail[-1:] == ["ARRAY"] and self.dialect == "postgresql":
            tail = tail[:-1]
        if tail and tail not in (["ARRAY"], ["WITH", "TIME", "ZONE"], ["WITHOUT", "TIME", "ZONE"], ["MAX"]):
            raise SqlSyntaxError(f"unrecognized data type: {canon(toks)}")
        for suffix in (" WITH TIME ZONE", " WITHOUT TIME ZONE", " CHARACTER SET ASCII COLLATE ASCII_BIN", " UNSIGNED"):
            if base.endswith(suffix):
                base = base[: -len(suffix)]
        if base not in self.builtin:
            raise DBError(f"type does not exist: {canon(toks)}")
        if base == "ENUM":
            vals = [v for k, v in toks if k == "str"]
            if not vals:
                raise DBError("ENUM without values")
            if len(set(vals)) != len(vals):
                raise DBError("duplicate value in ENUM")

    def _parse_type(self, p):
        out = []
        while not p.done():
            k, v = p.peek()
            if k == "word" and v in _AFTER_TYPE and out:
                # CHARACTER SET .. COLLATE .. in MySQL belongs to the type
                if v == "CHARACTER" and p.isw("CHARACTER", "SET"):
                    p.i += 3
                    if p.w("COLLATE"):
                        p.i += 1
                    continue
                break
            if (k, v) in (("op", ","), ("op", ")")):
                break
            if (k, v) == ("op", "("):
                out.append((k, v))
                p.i += 1
                inner = p.balanced(stop_ops=(")",))
                out.extend(inner)
                p.needop(")")
                out.append(("op", ")"))
                continue
            if (k, v) == ("op", "<") and self.dialect in PARTIAL:
                depth = 0
                while True:
                    k, v = p.peek()
                    if k is None:
                        p.fail(">")
                    depth += {"<": 1, ">": -1}.get(v, 0) if k == "op" else 0
                    out.append((k, v))
                    p.i += 1
                    if depth == 0:
                        break
                continue
            if k in ("word", "id") or (k, v) in (("op", "."), ("op", "["), ("op", "]")):
                out.append((k, v))
                p.i += 1
                continue
            break
        if self.dialect == "mysql" and ("word", "ASCII") in out and any(k == "str" and not v.isascii() for k, v in out):
            raise DBError(f"character set ASCII cannot represent the labels of the enumeration: {canon(out)}")
        self._check_type(out)
        return tuple(out)

    def _column_def(self, p, table):
        name = p.ident()
        type = self._parse_type(p)
        nullable, default, identity, comment, df = True, None, False, None, None
        explicit_not_null = False
        seen = set()

        def once(x):
            if x in seen:
                raise SqlSyntaxError(f"repeated {x} in definition of column {name}")
            seen.add(x)

        while not p.done():
            if p.w("NOT", "NULL"):
                once("NULL")
                explicit_not_null = True
                nullable = False
            elif p.w("NULL"):
                once("NULL")
            elif p.isw("CONSTRAINT") and self.dialect == "mssql":
                p.i += 1
                df = p.ident()
                p.need("DEFAULT")
                once("DEFAULT")
                default = p.balanced(stop_words=("NOT", "NULL", "IDENTITY", "CONSTRAINT"))
                if not default:
                    p.fail("default expression")
            elif p.w("DEFAULT"):
                once("DEFAULT")
                default = p.balanced(stop_words=("NOT", "NULL", "GENERATED", "IDENTITY", "AUTO_INCREMENT", "COMMENT", "CONSTRAINT") if not p.isw("NULL") else ("NOT", "GENERATED", "IDENTITY", "AUTO_INCREMENT", "COMMENT", "CONSTRAINT"))
                if not default:
                    p.fail("default expression")
            elif p.w("GENERATED", "BY", "DEFAULT", "AS", "IDENTITY") or p.w("GENERATED", "BY", "DEFAULT", "ON", "NULL", "AS", "IDENTITY"):
                once("IDENTITY")
                if self.dialect not in ("postgresql", "oracle", "delta", "trino"):
                    raise SqlSyntaxError("identity clause not supported")
                identity, nullable = True, False
            elif p.isw("IDENTITY") and self.dialect in ("mssql", "snowflake"):
                p.i += 1
                once("IDENTITY")
                if p.peek() == ("op", "("):
                    p.parens()
                identity, nullable = True, False
            elif p.isw("AUTO_INCREMENT") and self.dialect == "mysql":
                p.i += 1
                once("IDENTITY")
                identity = True
            elif p.isw("COMMENT") and self.dialect in ("mysql", "delta", "snowflake"):
                p.i += 1
                once("COMMENT")
                comment = p.string()
                if len(comment) > 1024 and self.dialect == "mysql":
                    raise DBError(f"comment for column {name} is too long")
            else:
                break
        if identity:
            nullable = False
            if default is not None:
                raise DBError(f"both default and identity for column {name}")
        if default is not None:
            default = tuple(default)
            self._check_default(type, default)
        return Col(name, type, nullable, default, identity, comment or None, df)

    def _check_default(self, type, default):
        "A default value must be a literal (or NULL, or a typed literal), of the enumeration if the type is one."
        for k, v in default:
            if k == "id" or k == "ph":
                raise DBError(f"column reference or parameter in default: {canon(default)}")
        strs = [v for k, v in default if k == "str"]
        ops = [v for k, v in default if k == "op"]
        if len(strs) > 1 or any(o not in ("-", "+", "::", "(", ")", ".") for o in ops):
            raise SqlSyntaxError(f"malformed default: {canon(default)}")
        if strs and type and type[0] == ("word", "ENUM"):
            if strs[0] not in [v for k, v in type if k == "str"]:
                raise DBError(f"default {strs[0]!r} not a value of the enumeration")
        base = type[0][1] if type and type[0][0] == "word" else None
        words = [v for k, v in default if k == "word"]
        nums = [v for k, v in default if k == "num"]
        if self.dialect == "mysql" and base in ("TEXT", "TINYTEXT", "MEDIUMTEXT", "LONGTEXT", "BLOB", "MEDIUMBLOB", "LONGBLOB", "JSON"):
            if default[0] != ("op", "(") and words != ["NULL"]:
                raise DBError(f"a {base} column can have a default value only as an expression: {canon(default)}")
        if self.dialect == "mssql" and any(w in ("TRUE", "FALSE") for w in words):
            raise SqlSyntaxError(f"Boolean literal in default: {canon(default)}")
        if self.dialect == "oracle" and base in ("DATE", "TIMESTAMP", "INTERVAL") and strs and base not in words:
            raise DBError(f"default of a {base} column depends on the format of the session: {canon(default)}")
        if self.dialect == "postgresql" and base == "BOOLEAN" and nums:
            raise DBError(f"numeric default of a Boolean column: {canon(default)}")
        if base in ("SMALLINT", "INTEGER", "BIGINT", "TINYINT", "NUMBER", "DECIMAL", "REAL", "DOUBLE", "FLOAT") and strs:
            try:
                float(strs[0])
            except ValueError:
                raise DBError(f"default {strs[0]!r} of a numeric column") from None
        refs = self._type_refs(type)
        if strs and len(refs) == 1 and isinstance(self.types.get(refs[0]), EnumT) and type[-1] != ("word", "ARRAY"):
            if strs[0] not in self.types[refs[0]].values:
                raise DBError(f"default {strs[0]!r} not a value of the enumeration")

    def _con_def(self, p, table):
        name = p.ident()
        if p.w("PRIMARY", "KEY"):
            return Con("pk", name, p.idlist())
        if p.w("UNIQUE"):
            return Con("unique", name, p.idlist())
        if p.w("FOREIGN", "KEY"):
            cols = p.idlist()
            p.need("REFERENCES")
            ref = p.qid()
            refcols = p.idlist()
            return Con("fk", name, cols, ref, refcols)
        if p.w("CHECK"):
            expr = p.parens()
            cols = []
            for k, v in expr:
                if k == "id" and v not in cols:
                    cols.append(v)
            return Con("check", name, cols, expr=tuple(expr))
        p.fail("constraint definition")

    def _add_con(self, t, c):
        if c.kind == "pk":
            if t.pk_name is not None:
                raise DBError(f"multiple primary keys for table {t.key}")
            self._check_con_name(t, c.name, "pk")
            for col in c.cols:
                if col not in t.cols:
                    raise DBError(f"key column does not exist: {t.key}.{col}")
                t.cols[col].nullable = False
            if len(set(c.cols)) != len(c.cols) or not c.cols:
                raise DBError("invalid primary key column list")
            t.pk_name, t.pk = c.name, c.cols
            self._check_rows(t)
            return
        self._check_con_name(t, c.name, c.kind)
        for col in c.cols:
            if col not in t.cols:
                raise DBError(f"constraint {c.name} column does not exist: {t.key}.{col}")
        if c.kind == "unique":
            if len(set(c.cols)) != len(c.cols) or not c.cols:
                raise DBError("invalid unique column list")
        if c.kind == "fk":
            rt = self.table(c.ref)
            if len(c.cols) != len(c.refcols):
                raise DBError(f"column count mismatch in foreign key {c.name}")
            for col in c.refcols:
                if col not in rt.cols:
                    raise DBError(f"referenced column does not exist: {c.ref}.{col}")
            if set(c.refcols) != set(rt.pk) and not any(
                k.kind == "unique" and set(k.cols) == set(c.refcols) for k in rt.cons.values()
            ):
                raise DBError(f"foreign key {c.name} references columns that are not unique: {c.ref}.{c.refcols}")
            for a, b in zip(c.cols, c.refcols):
                if canon(t.cols[a].type) != canon(rt.cols[b].type):
                    raise DBError(f"foreign key {c.name}: incompatible types {canon(t.cols[a].type)} and {canon(rt.cols[b].type)}")
        t.cons[c.name] = c
        self._check_rows(t)

    # ------------------------------------------------------------------ statements

    def _stmt(self, p, params):
        k, v = p.peek()
        if k != "word":
            p.fail("statement")
        if p.w("IF", "NOT", "EXISTS") and self.dialect == "mssql":
            return self._mssql_create_schema(p)
        if p.w("CREATE", "SCHEMA"):
            if self.dialect in ("oracle",):
                raise DBError("CREATE SCHEMA not supported")
            ine = p.w("IF", "NOT", "EXISTS")
            name = p.ident()
            p.end()
            if name in self.schemas:
                if ine:
                    return
                raise DBError(f"schema already exists: {name}")
            self.schemas.add(name)
            return
        if p.w("DROP", "SCHEMA"):
            return self._drop_schema(p)
        if p.w("CREATE", "TYPE"):
            return self._create_type(p)
        if p.w("ALTER", "TYPE"):
            return self._alter_type(p)
        if p.w("DROP", "TYPE"):
            ie = p.w("IF", "EXISTS")
            key = p.qid()
            p.end()
            if key not in self.types:
                if ie:
                    return
                raise DBError(f"type does not exist: {key}")
            users = self._type_users(key)
            if users:
                raise DBError(f"cannot drop type {key}: used by {users}")
            del self.types[key]
            return
        if p.w("CREATE", "TABLE"):
            return self._create_table(p)
        if p.w("DROP", "TABLE"):
            return self._drop_table(p)
        if p.w("ALTER", "TABLE"):
            return self._alter_table(p)
        if p.w("COMMENT", "ON"):
            return self._comment(p)
        if p.w("INSERT", "INTO"):
            return self._insert(p, params)
        if p.w("MERGE", "INTO"):
            return self._merge(p, params)
        if p.w("UPDATE"):
            return self._update(p, params)
        if p.w("DELETE", "FROM"):
            return self._delete(p, params)
        if p.w("SELECT"):
            return self._select(p, params)
        p.fail("known statement")

    def _mssql_create_schema(self, p):
        # IF NOT EXISTS (SELECT * FROM sys.schemas WHERE name = N'..') EXEC('CREATE SCHEMA ..')
        q = P(p.parens(), self)
        q.need("SELECT")
        q.needop("*")
        q.need("FROM")
        if q.qid() != ("sys", "schemas"):
            raise SqlSyntaxError("unexpected condition")
        q.need("WHERE", "NAME")
        q.needop("=")
        name = q.string()
        q.end()
        p.need("EXEC")
        inner = P(p.parens(), self)
        text = inner.string()
        inner.end()
        p.end()
        if name in self.schemas:
            return
        stmts = split(tokenize(text, self.dialect))
        if len(stmts) != 1:
            raise SqlSyntaxError("EXEC runs more than one statement")
        r = P(stmts[0], self)
        r.need("CREATE", "SCHEMA")
        created = r.ident()
        r.end()
        if created in self.schemas:
            raise DBError(f"schema already exists: {created}")
        self.schemas.add(created)

    def _drop_schema(self, p):
        ie = p.w("IF", "EXISTS")
        name = p.ident()
        cascade = p.w("CASCADE")
        p.w("RESTRICT")
        p.end()
        if name not in self.schemas:
            if ie:
                return
            raise DBError(f"schema does not exist: {name}")
        tabs = [k for k in self.tables if k[0] == name]
        typs = [k for k in self.types if k[0] == name]
        if (tabs or typs) and not cascade:
            raise DBError(f"schema {name} is not empty: {tabs + typs}")
        if self.dialect == "mssql" and cascade:
            raise SqlSyntaxError("CASCADE not supported")
        for k in tabs:
            self._drop_table_key(k, cascade=True)
        for k in typs:
            for t in self.tables.values():
                for c in [c for c in t.cols.values() if k in self._type_refs(c.type)]:
                    self._drop_col(t, c.name)
            for s in self.types.values():
                if isinstance(s, StructT):
                    for m in [m for m, ty in s.members.items() if k in self._type_refs(ty)]:
                        del s.members[m]
            del self.types[k]
        self.schemas.discard(name)

    # types

    def _type_users(self, key):
        users = []
        for t in self.tables.values():
            for c in t.cols.values():
                if key in self._type_refs(c.type):
                    users.append((t.key, c.name))
        for k, s in self.types.items():
            if isinstance(s, StructT):
                for m, ty in s.members.items():
                    if key in self._type_refs(ty):
                        users.append((k, m))
        return users

    def _create_type(self, p):
        if self.dialect not in ("postgresql", "trino"):
            raise DBError("CREATE TYPE not supported")
        key = p.qid()
        p.need("AS")
        if p.w("ENUM"):
            p.needop("(")
            vals = []
            if not p.op(")"):
                vals.append(p.string())
                while p.op(","):
                    vals.append(p.string())
                p.needop(")")
            p.end()
            if len(set(vals)) != len(vals):
                raise DBError(f"duplicate enumeration value: {vals}")
            for v in vals:
                if len(v.encode()) > 63:
                    raise DBError(f"invalid enum label (too long): {v!r}")
            self._check_new_relation(key)
            self.types[key] = EnumT(vals)
            return
        p.needop("(")
        s = StructT()
        if not p.op(")"):
            while True:
                n = p.ident()
                ty = self._parse_type(p)
                if n in s.members:
                    raise DBError(f"duplicate attribute: {n}")
                s.members[n] = ty
                if p.op(","):
                    continue
                p.needop(")")
                break
        p.end()
        self._check_new_relation(key)
        self.types[key] = s

    def _alter_type(self, p):
        key = p.qid()
        ty = self.types.get(key)
        if ty is None:
            raise DBError(f"type does not exist: {key}")
        if p.w("ADD", "VALUE"):
            if not isinstance(ty, EnumT):
                raise DBError(f"not an enumeration: {key}")
            ine = p.w("IF", "NOT", "EXISTS")
            v = p.string()
            if p.w("BEFORE") or p.w("AFTER"):
                p.string()
            p.end()
            if v in ty.values:
                if ine:
                    return
                raise DBError(f"enumeration value already exists: {v!r}")
            ty.values.append(v)
            return
        if p.w("RENAME", "TO"):
            new = (key[0], p.ident())
            p.end()
            self._check_new_relation(new)
            self.types[new] = self.types.pop(key)
            for t in self.tables.values():
                for c in t.cols.values():
                    c.type = self._rename_in_type(c.type, key, new)
            for s in self.types.values():
                if isinstance(s, StructT):
                    for m in s.members:
                        s.members[m] = self._rename_in_type(s.members[m], key, new)
            return
        if not isinstance(ty, StructT):
            raise DBError(f"not a composite type: {key}")
        if self._used_in_table(key):
            attr_alter_ok = False
        else:
            attr_alter_ok = True
        while True:
            if p.w("ADD", "ATTRIBUTE"):
                n = p.ident()
                t = self._parse_type(p)
                if n in ty.members:
                    raise DBError(f"attribute already exists: {n}")
                if key in self._type_refs(t):
                    raise DBError("composite type made a member of itself")
                ty.members[n] = t
            elif p.w("DROP", "ATTRIBUTE"):
                n = p.ident()
                if n not in ty.members:
                    raise DBError(f"attribute does not exist: {n}")
                del ty.members[n]
                ty.member_comments.pop(n, None)
            elif p.w("ALTER", "ATTRIBUTE"):
                n = p.ident()
                p.w("SET", "DATA")
                p.need("TYPE")
                t = self._parse_type(p)
                if n not in ty.members:
                    raise DBError(f"attribute does not exist: {n}")
                if not attr_alter_ok:
                    raise DBError(f"cannot alter type {key} because a column uses it")
                ty.members[n] = t
            else:
                p.fail("ALTER TYPE action")
            if not p.op(","):
                break
        p.end()

    def _used_in_table(self, key, seen=None):
        "True if a table column uses the type, possibly nested."
        seen = seen or set()
        if key in seen:
            return False
        seen.add(key)
        for u in self._type_users(key):
            if u[0] in self.tables:
                return True
            if self._used_in_table(u[0], seen):
                return True
        return False

    def _rename_in_type(self, toks, old, new):
        out, i = [], 0
        while i < len(toks):
            if toks[i][0] == "id":
                if i + 2 < len(toks) and toks[i + 1] == ("op", "."):
                    k = (toks[i][1], toks[i + 2][1])
                    if k == old:
                        k = new
                    out += [("id", k[0]), ("op", "."), ("id", k[1])]
                    i += 3
                    continue
                if ("", toks[i][1]) == old:
                    out.append(("id", new[1]))
                    i += 1
                    continue
            out.append(toks[i])
            i += 1
        return tuple(out)

    # tables

    def _create_table(self, p):
        ine = p.w("IF", "NOT", "EXISTS")
        key = p.qid()
        if ine and key in self.tables:
            return
        self._check_new_relation(key)
        t = Table(key)
        p.needop("(")
        pending = []
        while True:
            if p.isw("CONSTRAINT"):
                p.i += 1
                pending.append(self._con_def(p, t))
            elif p.isw("PRIMARY", "KEY"):
                p.i += 2
                pending.append(Con("pk", "", p.idlist()))
            else:
                c = self._column_def(p, t)
                if c.name in t.cols:
                    raise DBError(f"duplicate column: {key}.{c.name}")
                t.cols[c.name] = c
            if p.op(","):
                continue
            p.needop(")")
            break
        if self.dialect == "mysql" and p.w("COMMENT"):
            p.op("=")
            t.comment = p.string() or None
            if t.comment and len(t.comment) > 2048:
                raise DBError("comment for table is too long")
        if self.dialect in ("delta", "snowflake") and p.w("COMMENT"):
            if self.dialect == "snowflake":
                p.needop("=")
            t.comment = p.string()
        p.end()
        self.tables[key] = t
        try:
            for c in t.cols.values():
                if c.df_name:
                    n, c.df_name = c.df_name, None
                    self._check_con_name(t, n, "default")
                    c.df_name = n
            for c in pending:
                self._add_con(t, c)
            if self.dialect == "mysql":
                ai = [c for c in t.cols.values() if c.identity]
                if len(ai) > 1 or any(c.name not in t.pk for c in ai):
                    raise DBError("there can be only one auto column and it must be defined as a key")
        except Exception:
            del self.tables[key]
            raise

    def _drop_table(self, p):
        ie = p.w("IF", "EXISTS")
        keys = [p.qid()]
        while p.op(","):
            keys.append(p.qid())
        cascade = p.w("CASCADE", "CONSTRAINTS") if self.dialect == "oracle" else p.w("CASCADE")
        p.w("PURGE")
        p.w("RESTRICT")
        p.end()
        for key in keys:
            if key not in self.tables:
                if ie:
                    continue
                raise DBError(f"table does not exist: {key}")
        for key in keys:
            if key in self.tables:
                self._drop_table_key(key, cascade=cascade, also=keys if self.dialect != "mssql" else ())

    def _drop_table_key(self, key, cascade=False, also=()):
        for t in self.tables.values():
            if t.key == key or t.key in also:
                continue
            for c in list(t.cons.values()):
                if c.kind == "fk" and c.ref == key:
                    if cascade and self.dialect in ("postgresql", "oracle"):
                        del t.cons[c.name]
                    else:
                        raise DBError(f"cannot drop table {key}: referenced by foreign key {c.name} of {t.key}")
        del self.tables[key]

    def _drop_con(self, t, name):
        if name in t.cons:
            c = t.cons[name]
            if c.kind == "unique":
                for o in self.tables.values():
                    for k in o.cons.values():
                        if k.kind == "fk" and k.ref == t.key and set(k.refcols) == set(c.cols) and set(k.refcols) != set(t.pk):
                            raise DBError(f"constraint {name} is needed by foreign key {k.name}")
            del t.cons[name]
            return
        for c in t.cols.values():
            if c.df_name == name:
                c.df_name = None
                c.default = None
                return
        if name == t.pk_name:
            for o in self.tables.values():
                for k in o.cons.values():
                    if k.kind == "fk" and k.ref == t.key and set(k.refcols) == set(t.pk):
                        raise DBError(f"primary key {name} is needed by foreign key {k.name}")
            t.pk_name, t.pk = None, ()
            return
        raise DBError(f"constraint does not exist: {name} on table {t.key}")

    def _drop_col(self, t, name, dropping=()):
        if name not in t.cols:
            raise DBError(f"column does not exist: {t.key}.{name}")
        own = [c for c in t.cons.values() if name in c.cols and c.name not in dropping]
        for o in self.tables.values():
            for k in o.cons.values():
                if k.kind == "fk" and k.ref == t.key and name in k.refcols and not (o is t and k.name in dropping):
                    if o is t and list(k.cols) == [name] and self.dialect != "mssql":
                        continue
                    raise DBError(f"column {t.key}.{name} is referenced by foreign key {k.name}")
        if self.dialect == "mssql":
            if own or name in t.pk or t.cols[name].df_name:
                raise DBError(f"column {t.key}.{name} has dependent constraints")
        elif self.dialect == "mysql":
            if any(c.kind == "fk" for c in own):
                raise DBError(f"column {t.key}.{name} is needed in a foreign key constraint")
            if any(c.kind == "check" and len(c.cols) > 1 for c in own):
                raise DBError(f"column {t.key}.{name} is needed in a check constraint")
            for c in own:
                rest = tuple(x for x in c.cols if x != name)
                if c.kind == "unique" and rest:
                    c.cols = rest
                else:
                    del t.cons[c.name]
            if name in t.pk:
                t.pk = tuple(x for x in t.pk if x != name)
                if not t.pk:
                    t.pk_name = None
        else:
            if self.dialect == "oracle" and any(len(c.cols) > 1 for c in own):
                raise DBError(f"column {t.key}.{name} is referenced in a multi-column constraint")
            for c in own:
                del t.cons[c.name]
            if name in t.pk:
                t.pk_name, t.pk = None, ()
        del t.cols[name]
        if not t.cols:
            raise DBError(f"table {t.key} left without columns")
        for r in t.rows:
            r.pop(name, None)

    def _alter_table(self, p):
        key = p.qid()
        t = self.table(key)
        before = copy.deepcopy(self.tables)
        try:
            if self.dialect == "mysql":
                self._alter_table_mysql(p, t)
            else:
                self._alter_table_std(p, t)
        except Exception:
            self.tables = before
            raise

    def _alter_table_std(self, p, t):
        multi = self.dialect in ("postgresql", *PARTIAL)
        if self.dialect == "mssql":
            return self._alter_table_mssql(p, t)
        if self.dialect == "oracle" and p.peek() == ("op", "("):
            raise SqlSyntaxError("unexpected parenthesis")
        actions = []
        while True:
            start = p.i
            if p.w("ADD", "CONSTRAINT"):
                c = self._con_def(p, t)
                actions.append((5, "addcon", c))
            elif p.w("ADD", "COLUMN") or p.w("ADD"):
                paren = self.dialect == "oracle" and p.op("(")
                save = p.i
                col = self._column_def(p, t)
                if paren:
                    p.needop(")")
                del save
                actions.append((3, "addcol", col))
            elif p.w("DROP", "CONSTRAINT"):
                ie = p.w("IF", "EXISTS")
                actions.append((0, "dropcon", (p.ident(), ie)))
                p.w("CASCADE")
            elif p.w("DROP", "COLUMN"):
                ie = p.w("IF", "EXISTS")
                actions.append((0, "dropcol", (p.ident(), ie)))
                if p.w("CASCADE", "CONSTRAINTS"):
                    pass
            elif p.w("RENAME", "COLUMN"):
                a = p.ident()
                p.need("TO")
                actions.append((9, "rename", (a, p.ident())))
                if len(actions) > 1:
                    raise SqlSyntaxError("RENAME COLUMN cannot be combined")
            elif self.dialect == "oracle" and p.w("MODIFY"):
                paren = p.op("(")
                n = p.ident()
                actions.append((2, "modify", (n, self._oracle_modify(p, t, n))))
                if paren:
                    p.needop(")")
            elif self.dialect in ("postgresql", *PARTIAL) and p.w("ALTER"):
                p.w("COLUMN")
                n = p.ident()
                actions.append(self._pg_alter_column(p, n))
            else:
                p.fail("ALTER TABLE action")
            if not p.op(","):
                break
            if not multi:
                raise SqlSyntaxError(f"multiple actions in one ALTER TABLE: {canon(p.t)[:200]}")
            if p.i == start:
                p.fail("action")
        p.end()
        if any(a[1] == "rename" for a in actions) and len(actions) > 1:
            raise SqlSyntaxError("RENAME COLUMN cannot be combined")
        # PostgreSQL runs the actions of one statement in passes
        for _, what, arg in sorted(actions, key=lambda a: a[0]):
            self._apply(t, what, arg)

    def _apply(self, t, what, arg):
        if what == "addcon":
            self._add_con(t, arg)
        elif what == "addcol":
            self._add_col(t, arg)
        elif what == "dropcon":
            name, ie = arg
            if ie and name not in t.cons:
                return
            self._drop_con(t, name)
        elif what == "dropcol":
            name, ie = arg
            if ie and name not in t.cols:
                return
            self._drop_col(t, name)
        elif what == "rename":
            self._rename_col(t, *arg)
        elif what == "modify":
            arg[1](t)
        elif what == "altercol":
            n, fn = arg
            if n not in t.cols:
                raise DBError(f"column does not exist: {t.key}.{n}")
            fn(t.cols[n], t)

    def _add_col(self, t, col):
        if col.name in t.cols:
            raise DBError(f"column already exists: {t.key}.{col.name}")
        if col.df_name:
            n, col.df_name = col.df_name, None
            self._check_con_name(t, n, "default")
            col.df_name = n
        t.cols[col.name] = col
        for r in t.rows:
            if col.identity:
                r[col.name] = t.next_id
                t.next_id += 1
            elif col.default is not None:
                r[col.name] = self._default_value(col)
            elif not col.nullable:
                if self.dialect == "mysql":
                    r[col.name] = _mysql_implicit(col.type)
                else:
                    raise DBError(f"column {t.key}.{col.name} contains null values")
            else:
                r[col.name] = None

    def _rename_col(self, t, a, b):
        if a not in t.cols:
            raise DBError(f"column does not exist: {t.key}.{a}")
        if b in t.cols:
            raise DBError(f"column already exists: {t.key}.{b}")
        new = {}
        for n, c in t.cols.items():
            if n == a:
                c.name = b
                new[b] = c
            else:
                new[n] = c
        t.cols = new
        for r in t.rows:
            r[b] = r.pop(a)
        t.pk = tuple(b if x == a else x for x in t.pk)
        for c in t.cons.values():
            c.cols = tuple(b if x == a else x for x in c.cols)
            if c.expr is not None:
                c.expr = tuple(("id", b) if k == ("id", a) else k for k in c.expr)
        for o in self.tables.values():
            for c in o.cons.values():
                if c.kind == "fk" and c.ref == t.key:
                    c.refcols = tuple(b if x == a else x for x in c.refcols)

    def _set_type(self, t, col, ty):
        old = canon(col.type)
        if old == canon(ty):
            col.type = ty
            return
        for o in self.tables.values():
            for k in o.cons.values():
                if k.kind != "fk":
                    continue
                if (o is t and col.name in k.cols) or (k.ref == t.key and col.name in k.refcols):
                    raise DBError(f"cannot change the type of column {t.key}.{col.name} used in foreign key {k.name}")
        col.type = ty

    def _pg_alter_column(self, p, n):
        if p.w("SET", "DATA", "TYPE") or p.w("TYPE"):
            ty = self._parse_type(p)
            return (1, "altercol", (n, lambda c, t: self._set_type(t, c, ty)))
        if p.w("SET", "NOT", "NULL"):
            def f(c, t):
                if any(r[c.name] is None for r in t.rows):
                    raise DBError(f"column {t.key}.{c.name} contains null values")
                c.nullable = False
            return (4, "altercol", (n, f))
        if p.w("DROP", "NOT", "NULL"):
            def f(c, t):
                if c.name in t.pk or c.identity:
                    raise DBError(f"column {c.name} is in a primary key or an identity column")
                c.nullable = True
            return (0, "altercol", (n, f))
        if p.w("SET", "DEFAULT"):
            d = tuple(p.balanced())
            if not d:
                p.fail("default")
            def f(c, t):
                if c.identity:
                    raise DBError(f"column {c.name} is an identity column")
                self._check_default(c.type, d)
                c.default = d
            return (4, "altercol", (n, f))
        if p.w("DROP", "DEFAULT"):
            def f(c, t):
                if c.identity:
                    raise DBError(f"column {c.name} is an identity column")
                c.default = None
            return (4, "altercol", (n, f))
        if p.w("DROP", "IDENTITY"):
            ie = p.w("IF", "EXISTS")
            def f(c, t):
                if not c.identity and not ie:
                    raise DBError(f"column {c.name} is not an identity column")
                c.identity = False
            return (0, "altercol", (n, f))
        if p.w("ADD", "GENERATED", "BY", "DEFAULT", "AS", "IDENTITY"):
            def f(c, t):
                if c.identity:
                    raise DBError(f"column {c.name} is already an identity column")
                if c.nullable:
                    raise DBError(f"column {c.name} must be declared NOT NULL before identity can be added")
                if c.default is not None:
                    raise DBError(f"column {c.name} already has a default value")
                c.identity = True
            return (6, "altercol", (n, f))
        p.fail("ALTER COLUMN action")

    def _oracle_modify(self, p, t, n):
        ops = []
        if p.peek()[0] == "word" and p.peek()[1] not in ("DEFAULT", "NOT", "NULL", "GENERATED", "DROP"):
            ty = self._parse_type(p)
            ops.append(lambda c, t: self._set_type(t, c, ty))
        while not p.done() and p.peek() != ("op", ")"):
            if p.w("DEFAULT"):
                if p.w("NULL"):
                    def f(c, t):
                        c.default = None
                    ops.append(f)
                else:
                    d = tuple(p.balanced(stop_words=("NOT", "NULL", "GENERATED", "DROP")))
                    if not d:
                        p.fail("default")
                    def f(c, t, d=d):
                        self._check_default(c.type, d)
                        c.default = d
                    ops.append(f)
            elif p.w("NOT", "NULL"):
                def f(c, t):
                    if not c.nullable:
                        raise DBError(f"column {c.name} is already NOT NULL")
                    if any(r[c.name] is None for r in t.rows):
                        raise DBError(f"cannot enable NOT NULL, null values found: {c.name}")
                    c.nullable = False
                ops.append(f)
            elif p.w("NULL"):
                def f(c, t):
                    if c.nullable:
                        raise DBError(f"column {c.name} is already NULL")
                    if c.name in t.pk:
                        raise DBError(f"column {c.name} is in a primary key")
                    c.nullable = True
                ops.append(f)
            elif p.w("DROP", "IDENTITY"):
                def f(c, t):
                    if not c.identity:
                        raise DBError(f"column {c.name} is not an identity column")
                    c.identity = False
                ops.append(f)
            elif p.w("GENERATED", "BY", "DEFAULT", "AS", "IDENTITY"):
                def f(c, t):
                    if not c.identity:
                        raise DBError(f"column {c.name}: cannot make an existing column an identity column")
                ops.append(f)
            else:
                p.fail("MODIFY clause")

        def g(t):
            if n not in t.cols:
                raise DBError(f"column does not exist: {t.key}.{n}")
            for f in ops:
                f(t.cols[n], t)

        return g

    def _alter_table_mssql(self, p, t):
        if p.w("ADD"):
            while True:
                if p.w("CONSTRAINT"):
                    save = p.i
                    name = p.ident()
                    if p.w("DEFAULT"):
                        d = tuple(p.balanced(stop_words=("FOR",)))
                        p.need("FOR")
                        cn = p.ident()
                        if cn not in t.cols:
                            raise DBError(f"column does not exist: {t.key}.{cn}")
                        c = t.cols[cn]
                        if c.default is not None or c.df_name is not None:
                            raise DBError(f"column already has a DEFAULT bound to it: {cn}")
                        self._check_con_name(t, name, "default")
                        self._check_default(c.type, d)
                        c.default, c.df_name = d, name
                    else:
                        p.i = save
                        self._add_con(t, self._con_def(p, t))
                else:
                    if p.w("COLUMN"):
                        raise SqlSyntaxError("ADD COLUMN not supported")
                    self._add_col(t, self._column_def(p, t))
                if not p.op(","):
                    break
            p.end()
            return
        if p.w("DROP"):
            kind = None
            while True:
                if p.w("CONSTRAINT"):
                    kind = "con"
                elif p.w("COLUMN"):
                    kind = "col"
                elif kind is None:
                    p.fail("CONSTRAINT or COLUMN")
                n = p.ident()
                if kind == "con":
                    self._drop_con(t, n)
                else:
                    self._drop_col(t, n)
                if not p.op(","):
                    break
            p.end()
            return
        if p.w("ALTER", "COLUMN"):
            n = p.ident()
            if n not in t.cols:
                raise DBError(f"column does not exist: {t.key}.{n}")
            c = t.cols[n]
            ty = self._parse_type(p)
            if p.w("NOT", "NULL"):
                nn = False
            else:
                p.w("NULL")
                nn = True
            p.end()
            changed = canon(ty) != canon(c.type)
            if changed:
                if self._type_name(ty) != self._type_name(c.type) and c.default is not None:
                    raise DBError(f"the default constraint is dependent on column {n}")
                if n in t.pk:
                    raise DBError(f"the primary key is dependent on column {n}")
                for k in t.cons.values():
                    # the length of a variable-length column may change in spite of a unique or check constraint
                    longer = self._type_name(ty) == self._type_name(c.type) == "VARCHAR" and k.kind != "fk"
                    if n in k.cols and k.kind in ("unique", "check", "fk") and not longer:
                        raise DBError(f"constraint {k.name} is dependent on column {n}")
            if nn and (n in t.pk or c.identity):
                raise DBError(f"cannot make key column nullable: {n}")
            if not nn and any(r[n] is None for r in t.rows):
                raise DBError(f"cannot insert the value NULL into column {n}")
            self._set_type(t, c, ty)
            c.nullable = nn
            return
        p.fail("ALTER TABLE action")

    @staticmethod
    def _type_name(toks):
        return toks[0][1] if toks else None

    def _alter_table_mysql(self, p, t):
        acts = []
        while True:
            if p.w("COMMENT"):
                p.op("=")
                acts.append(("comment", p.string()))
            elif p.w("ADD", "CONSTRAINT"):
                acts.append(("addcon", self._con_def(p, t)))
            elif p.w("ADD", "COLUMN") or p.w("ADD"):
                acts.append(("addcol", self._column_def(p, t)))
            elif p.w("DROP", "CONSTRAINT") or p.w("DROP", "INDEX") or p.w("DROP", "FOREIGN", "KEY") or p.w("DROP", "CHECK"):
                acts.append(("dropcon", p.ident()))
            elif p.w("DROP", "COLUMN"):
                acts.append(("dropcol", p.ident()))
            elif p.w("MODIFY", "COLUMN") or p.w("MODIFY"):
                acts.append(("modify", self._column_def(p, t)))
            elif p.w("CHANGE", "COLUMN") or p.w("CHANGE"):
                a = p.ident()
                acts.append(("change", (a, self._column_def(p, t))))
            elif p.w("RENAME", "COLUMN"):
                a = p.ident()
                p.need("TO")
                acts.append(("rename", (a, p.ident())))
            else:
                p.fail("ALTER TABLE action")
            if not p.op(","):
                break
        p.end()
        # MySQL resolves the drops of one statement against the original table
        dropping = {a for k, a in acts if k == "dropcon"}
        for k, a in acts:
            if k == "dropcon":
                self._drop_con(t, a)
        for k, a in acts:
            if k == "dropcol":
                self._drop_col(t, a, dropping)
        for k, a in acts:
            if k == "comment":
                t.comment = a or None
            elif k == "addcol":
                self._add_col(t, a)
            elif k == "modify":
                self._mysql_redefine(t, a.name, a)
            elif k == "change":
                old, col = a
                if old not in t.cols:
                    raise DBError(f"column does not exist: {t.key}.{old}")
                if old != col.name:
                    self._rename_col(t, old, col.name)
                self._mysql_redefine(t, col.name, col)
            elif k == "rename":
                self._rename_col(t, *a)
        for k, a in acts:
            if k == "addcon":
                self._add_con(t, a)

    def _mysql_redefine(self, t, name, col):
        if name not in t.cols:
            raise DBError(f"column does not exist: {t.key}.{name}")
        old = t.cols[name]
        self._set_type(t, old, col.type)
        if not col.nullable or name in t.pk:
            if any(r[name] is None for r in t.rows):
                raise DBError(f"column {name} contains null values")
        old.nullable = col.nullable and name not in t.pk
        old.default = col.default
        old.identity = col.identity
        if col.identity and name not in t.pk:
            raise DBError("auto column must be defined as a key")
        old.comment = col.comment
        if col.type[0] == ("word", "ENUM"):
            vals = {v for k, v in col.type if k == "str"}
            for r in t.rows:
                if r[name] is not None and r[name] not in vals:
                    raise DBError(f"data truncated for column {name}: {r[name]!r}")

    def _comment(self, p):
        if self.dialect not in ("postgresql", "oracle"):
            raise SqlSyntaxError("COMMENT ON not supported")
        if p.w("TABLE"):
            key = p.qid()
            p.need("IS")
            text = self._comment_text(p)
            self.table(key).comment = text
        elif p.w("TYPE"):
            key = p.qid()
            p.need("IS")
            text = self._comment_text(p)
            ty = self.types.get(key)
            if ty is None:
                raise DBError(f"type does not exist: {key}")
            ty.comment = text
        elif p.w("COLUMN"):
            parts = [p.ident()]
            while p.op("."):
                parts.append(p.ident())
            p.need("IS")
            text = self._comment_text(p)
            if len(parts) == 2:
                key = ("", parts[0])
            elif len(parts) == 3:
                key = (parts[0], parts[1])
            else:
                p.fail("column name")
            col = parts[-1]
            if key in self.tables:
                if col not in self.tables[key].cols:
                    raise DBError(f"column does not exist: {key}.{col}")
                self.tables[key].cols[col].comment = text
            elif isinstance(self.types.get(key), StructT):
                s = self.types[key]
                if col not in s.members:
                    raise DBError(f"attribute does not exist: {key}.{col}")
                if text is None:
                    s.member_comments.pop(col, None)
                else:
                    s.member_comments[col] = text
            else:
                raise DBError(f"relation does not exist: {key}")
        else:
            p.fail("COMMENT ON target")

    def _comment_text(self, p):
        if p.w("NULL"):
            text = None
        else:
            text = p.string()
        p.end()
        return text or None  # an empty comment is no comment in PostgreSQL and Oracle

    # ------------------------------------------------------------------ data

    def _default_value(self, col):
        d = col.default
        if d is None:
            return None
        return self._literal(d)

    def _literal(self, toks):
        toks = list(toks)
        while len(toks) > 2 and toks[0] == ("op", "(") and toks[-1] == ("op", ")"):
            toks = toks[1:-1]
        if len(toks) == 5 and toks[0] == ("word", "INTERVAL") and toks[1][0] == "str" and toks[2:] == [("word", "DAY"), ("word", "TO"), ("word", "SECOND")]:
            return toks[1][1]
        if toks and toks[0] == ("word", "TIMESTAMP"):
            toks = toks[1:]
        if toks and toks[0] == ("word", "DATE"):
            toks = toks[1:]
        if len(toks) == 1:
            k, v = toks[0]
            if k == "str":
                return v
            if k == "num":
                return _number(v)
            if k == "word":
                if v == "TRUE":
                    return True
                if v == "FALSE":
                    return False
                if v == "NULL":
                    return None
        if len(toks) == 2 and toks[0] in (("op", "-"), ("op", "+")) and toks[1][0] == "num":
            x = _number(toks[1][1])
            return -x if toks[0][1] == "-" else x
        raise SqlSyntaxError(f"unsupported literal: {canon(toks)}")

    def _coerce(self, t, col, value):
        "Stores a value in a column, applying the checks that the column type makes."
        if value is None:
            return None
        ty = col.type
        if ty[0] == ("word", "ENUM") and isinstance(value, str):
            if value not in [v for k, v in ty if k == "str"]:
                raise DBError(f"data truncated for column {t.key}.{col.name}: {value!r}")
        refs = self._type_refs(ty)
        if len(refs) == 1 and isinstance(self.types.get(refs[0]), EnumT) and ty[-1] != ("word", "ARRAY"):
            if value not in self.types[refs[0]].values:
                raise DBError(f"invalid input value for enum {refs[0]}: {value!r}")
        if ty[0][0] == "word" and ty[0][1] in ("VARCHAR", "NVARCHAR", "VARCHAR2", "CHAR") and isinstance(value, str):
            nums = [v for k, v in ty if k == "num"]
            if nums and len(value) > int(nums[0]):
                raise DBError(f"value too long for column {t.key}.{col.name}: {len(value)}")
        return value

    def _check_row(self, t, row):
        for c in t.cols.values():
            if row[c.name] is None and not c.nullable:
                raise DBError(f"null value in column {t.key}.{c.name}")
        for c in t.cons.values():
            if c.kind == "fk":
                vals = tuple(row[x] for x in c.cols)
                if any(v is None for v in vals):
                    continue
                rt = self.table(c.ref)
                if not any(tuple(r[x] for x in c.refcols) == vals for r in rt.rows):
                    raise DBError(f"foreign key {c.name} violated: {vals} not in {c.ref}")

    def _unique_sets(self, t):
        out = []
        if t.pk:
            out.append((t.pk_name, t.pk))
        for c in t.cons.values():
            if c.kind == "unique":
                out.append((c.name, c.cols))
        return out

    def _key(self, row, cols):
        vals = tuple(row[x] for x in cols)
        if any(v is None for v in vals):
            return None
        return vals

    def _conflict(self, t, row, only=None):
        for name, cols in self._unique_sets(t):
            if only is not None and tuple(cols) != tuple(only):
                continue
            k = self._key(row, cols)
            if k is None:
                continue
            for r in t.rows:
                if r is not row and self._key(r, cols) == k:
                    return r
        return None

    def _check_rows(self, t):
        for r in t.rows:
            self._check_row(t, r)
            if self._conflict(t, r) is not None:
                raise DBError(f"duplicate key in table {t.key}")

    def insert_row(self, key, values: dict):
        t = self.table(key)
        row = {}
        for n in values:
            if n not in t.cols:
                raise DBError(f"column does not exist: {t.key}.{n}")
        for c in t.cols.values():
            if c.name in values:
                v = self._coerce(t, c, values[c.name])
                if c.identity and v is not None:
                    if self.dialect == "mssql":
                        raise DBError(f"cannot insert explicit value for identity column {c.name}")
                    if isinstance(v, int):
                        t.next_id = max(t.next_id, v + 1) if self.dialect == "mysql" else t.next_id
                if c.identity and v is None:
                    if self.dialect == "mysql":
                        v = t.next_id
                        t.next_id += 1
                    else:
                        raise DBError(f"null value in identity column {c.name}")
            elif c.identity:
                v = t.next_id
                t.next_id += 1
            elif c.default is not None:
                v = self._default_value(c)
            else:
                v = None
            row[c.name] = v
        self._check_row(t, row)
        return t, row

    def _do_insert(self, key, values):
        t, row = self.insert_row(key, values)
        if self._conflict(t, row) is not None:
            raise DBError(f"duplicate key in table {t.key}: {row}")
        t.rows.append(row)

    def _value(self, toks, params, env=None):
        "Evaluates a scalar expression: literal, placeholder or (qualified) column."
        toks = list(toks)
        while len(toks) > 2 and toks[0] == ("op", "(") and toks[-1] == ("op", ")"):
            toks = toks[1:-1]
        # casts of the form expr::TYPE
        for i, tk in enumerate(toks):
            if tk == ("op", "::"):
                v = self._value(toks[:i], params, env)
                return None if v is None else str(v)
        if len(toks) == 1 and toks[0][0] == "ph":
            if params is None or not (1 <= toks[0][1] <= len(params)):
                raise DBError(f"no value for placeholder {toks[0][1]}")
            return params[toks[0][1] - 1]
        if env is not None:
            if len(toks) == 1 and toks[0][0] in ("id",):
                return self._col_value(env, None, toks[0][1])
            if len(toks) == 3 and toks[1] == ("op", "."):
                return self._col_value(env, _name(toks[0]), _name(toks[2]))
        if len(toks) == 4 and toks[0] == ("word", "VALUES") and env is not None and "VALUES" in env:
            return self._col_value({"values": env["VALUES"]}, "values", toks[2][1])
        return self._literal(toks)

    def _col_value(self, env, alias, name):
        if alias is None:
            hits = {id(r): r for a, r in env.items() if a != "VALUES" and a != "excluded" and name in r}
            hits = list(hits.values())
            if len(hits) != 1:
                raise DBError(f"unknown or ambiguous column: {name}")
            return hits[0][name]
        if alias not in env or name not in env[alias]:
            raise DBError(f"unknown column: {alias}.{name}")
        return env[alias][name]

    def _check_params(self, p, params):
        phs = [v for k, v in p.t if k == "ph"]
        n = len(params) if params is not None else 0
        if sorted(set(phs)) != list(range(1, n + 1)):
            raise DBError(f"statement has {len(set(phs))} placeholder(s) but {n} value(s) were supplied")

    def _insert(self, p, params):
        self._check_params(p, params)
        key = p.qid()
        t = self.table(key)
        cols = p.idlist()
        if len(set(cols)) != len(cols):
            raise DBError(f"column specified more than once: {cols}")
        for c in cols:
            if c not in t.cols:
                raise DBError(f"column does not exist: {key}.{c}")
        tuples = []
        src = None
        if p.w("VALUES"):
            while True:
                p.needop("(")
                vals = []
                while True:
                    vals.append(self._value(p.balanced(), params))
                    if not p.op(","):
                        break
                p.needop(")")
                if len(vals) != len(cols):
                    raise DBError(f"INSERT has {len(cols)} columns but {len(vals)} values")
                tuples.append(vals)
                if not p.op(","):
                    break
        elif p.w("SELECT"):
            distinct = p.w("DISTINCT")
            names = [p.ident()]
            while p.op(","):
                names.append(p.ident())
            p.need("FROM")
            src = self.table(p.qid())
            cond = []
            if p.w("WHERE"):
                cond = p.balanced(stop_words=("ON",))
            for n in names:
                if n not in src.cols:
                    raise DBError(f"column does not exist: {src.key}.{n}")
            seen = []
            for r in src.rows:
                if cond and not self._cond(cond, params, {"": r}):
                    continue
                tup = [r[n] for n in names]
                if distinct and tup in seen:
                    continue
                seen.append(tup)
            tuples = seen
        else:
            p.fail("VALUES or SELECT")
        mode = None
        if p.w("ON", "CONFLICT"):
            if self.dialect != "postgresql":
                raise SqlSyntaxError("ON CONFLICT not supported")
            target = None
            if p.peek() == ("op", "("):
                target = p.idlist()
                if not any(tuple(c) == tuple(target) or set(c) == set(target) for _, c in self._unique_sets(t)):
                    raise DBError(f"no unique constraint matching the ON CONFLICT specification: {target}")
            if p.w("DO", "NOTHING"):
                mode = ("nothing", target)
            elif p.w("DO", "UPDATE", "SET"):
                if target is None:
                    raise SqlSyntaxError("ON CONFLICT DO UPDATE requires a conflict target")
                mode = ("update", target, self._assignments(p, t, key))
            else:
                p.fail("conflict action")
        elif p.w("ON", "DUPLICATE", "KEY", "UPDATE"):
            if self.dialect != "mysql":
                raise SqlSyntaxError("ON DUPLICATE KEY not supported")
            mode = ("update", None, self._assignments(p, t, key))
        p.end()
        touched = []
        for vals in tuples:
            values = dict(zip(cols, vals))
            _, row = self.insert_row(key, values)
            if mode is None:
                if self._conflict(t, row) is not None:
                    raise DBError(f"duplicate key in table {t.key}: {row}")
                t.rows.append(row)
                continue
            target = mode[1]
            hit = self._conflict(t, row, only=tuple(target) if target else None)
            if hit is None:
                if self._conflict(t, row) is not None:
                    raise DBError(f"duplicate key in table {t.key}: {row}")
                t.rows.append(row)
                touched.append(id(row))
                continue
            if mode[0] == "nothing":
                continue
            if self.dialect == "postgresql" and id(hit) in touched:
                raise DBError("ON CONFLICT DO UPDATE command cannot affect row a second time")
            touched.append(id(hit))
            env = {"": hit, key[1]: hit, "excluded": row, "VALUES": row}
            if src is not None and self.dialect == "mysql" and src is not t:
                # columns of the table selected from are visible, too
                env[src.key[1]] = {n: None for n in src.cols}
            self._assign(t, hit, mode[2], params, env)

    def _assignments(self, p, t, key):
        out = []
        while True:
            parts = [p.ident()]
            while p.op("."):
                parts.append(p.ident())
            name = parts[-1]
            p.needop("=")
            expr = p.balanced(stop_words=("WHERE", "FROM", "WHEN"))
            if name not in t.cols:
                raise DBError(f"column does not exist: {t.key}.{name}")
            if name in [n for n, _ in out]:
                raise DBError(f"multiple assignments to column {name}")
            out.append((name, expr))
            if not p.op(","):
                break
        return out

    def _assign(self, t, row, assigns, params, env):
        old = dict(row)
        new = {}
        for n, expr in assigns:
            e = list(expr)
            if len(e) == 3 and e[0] == ("word", "EXCLUDED") and e[1] == ("op", "."):
                v = env["excluded"].get(e[2][1])
                if e[2][1] not in t.cols:
                    raise DBError(f"unknown column {e[2][1]}")
            else:
                v = self._value(e, params, env)
            col = t.cols[n]
            v = self._coerce(t, col, v)
            if col.identity and self.dialect == "mssql" and v != old[n]:
                raise DBError(f"cannot update identity column {n}")
            new[n] = v
        row.update(new)
        try:
            self._check_row(t, row)
            if self._conflict(t, row) is not None:
                raise DBError(f"duplicate key in table {t.key}: {row}")
            for o in self.tables.values():
                for k in o.cons.values():
                    if k.kind == "fk" and k.ref == t.key and any(old[c] != row[c] for c in k.refcols):
                        for r in o.rows:
                            if tuple(r[c] for c in k.cols) == tuple(old[c] for c in k.refcols):
                                raise DBError(f"update violates foreign key {k.name}")
        except DBError:
            row.clear()
            row.update(old)
            raise

    # conditions: OR of AND of comparisons

    def _split_bool(self, toks, word):
        parts, cur, depth = [], [], 0
        for tk in toks:
            if tk == ("op", "("):
                depth += 1
            elif tk == ("op", ")"):
                depth -= 1
            if depth == 0 and tk == ("word", word):
                parts.append(cur)
                cur = []
            else:
                cur.append(tk)
        parts.append(cur)
        return parts

    def _cond(self, toks, params, env):
        toks = list(toks)
        if not toks:
            raise SqlSyntaxError("empty condition")
        ors = self._split_bool(toks, "OR")
        if len(ors) > 1:
            return any([self._cond(c, params, env) for c in ors])
        ands = self._split_bool(toks, "AND")
        if len(ands) > 1:
            return all([self._cond(c, params, env) for c in ands])
        if toks[0] == ("op", "(") and toks[-1] == ("op", ")"):
            return self._cond(toks[1:-1], params, env)
        depth = 0
        for i, tk in enumerate(toks):
            if tk == ("op", "("):
                depth += 1
            elif tk == ("op", ")"):
                depth -= 1
            elif depth == 0 and tk == ("op", "="):
                a = self._value(toks[:i], params, env)
                b = self._value(toks[i + 1 :], params, env)
                return a is not None and b is not None and a == b
            elif depth == 0 and tk == ("word", "IS"):
                a = self._value(toks[:i], params, env)
                if toks[i + 1 :] == [("word", "NULL")]:
                    return a is None
                if toks[i + 1 :] == [("word", "NOT"), ("word", "NULL")]:
                    return a is not None
        raise SqlSyntaxError(f"unsupported condition: {canon(toks)}")

    def _merge(self, p, params):
        if self.dialect not in ("mssql", "oracle", "postgresql"):
            raise SqlSyntaxError("MERGE not supported")
        self._check_params(p, params)
        key = p.qid()
        t = self.table(key)
        p.w("AS")
        tgt = p.ident()
        p.need("USING")
        p.needop("(")
        p.need("VALUES")
        p.needop("(")
        vals = []
        while True:
            vals.append(self._value(p.balanced(), params))
            if not p.op(","):
                break
        p.needop(")")
        p.needop(")")
        p.w("AS")
        src = p.ident()
        cols = p.idlist()
        if len(cols) != len(vals):
            raise DBError(f"source has {len(cols)} columns but {len(vals)} values")
        if len(set(cols)) != len(cols):
            raise DBError("column specified more than once in source")
        srow = dict(zip(cols, vals))
        if not p.w("ON"):
            raise SqlSyntaxError("MERGE without an ON clause")
        cond = p.balanced(stop_ops=(), stop_words=("WHEN",))
        upd = ins = None
        while p.w("WHEN"):
            if p.w("NOT", "MATCHED", "THEN"):
                p.need("INSERT")
                icols = p.idlist()
                p.need("VALUES")
                p.needop("(")
                iexpr = []
                while True:
                    iexpr.append(p.balanced())
                    if not p.op(","):
                        break
                p.needop(")")
                if len(icols) != len(iexpr):
                    raise DBError("INSERT column count mismatch")
                if len(set(icols)) != len(icols):
                    raise DBError("column specified more than once")
                for c in icols:
                    if c not in t.cols:
                        raise DBError(f"column does not exist: {key}.{c}")
                ins = (icols, iexpr)
            elif p.w("MATCHED", "THEN"):
                p.need("UPDATE", "SET")
                upd = self._assignments(p, t, key)
            else:
                p.fail("WHEN clause")
        p.end()
        if upd is None and ins is None:
            raise SqlSyntaxError("MERGE without WHEN clause")
        if upd is not None and self.dialect == "oracle":
            oncols = {v for k, v in cond if k == "id"}
            for n, _ in upd:
                if n in oncols:
                    raise DBError(f"columns referenced in the ON clause cannot be updated: {n}")
        hits = [r for r in t.rows if self._cond(cond, params, {tgt: r, src: srow})]
        if hits:
            if upd is not None:
                for r in hits:
                    self._assign(t, r, upd, params, {tgt: r, src: srow})
        elif ins is not None:
            values = {c: self._value(e, params, {src: srow}) for c, e in zip(*ins)}
            self._do_insert(key, values)

    def _update(self, p, params):
        self._check_params(p, params)
        key = p.qid()
        t = self.table(key)
        alias = key[1]
        if p.peek()[0] in ("id", "word") and not p.isw("SET") and not p.isw("JOIN"):
            p.w("AS")
            alias = p.ident()
        if p.w("JOIN"):
            if self.dialect != "mysql":
                raise SqlSyntaxError("UPDATE JOIN not supported")
            jt = self.table(p.qid())
            jalias = jt.key[1]
            if not p.isw("ON"):
                jalias = p.ident()
            p.need("ON")
            cond = p.balanced(stop_ops=(), stop_words=("SET",))
            p.need("SET")
            assigns = self._assignments(p, t, key)
            if p.w("WHERE"):
                cond = cond + [("word", "AND")] + p.balanced(stop_ops=())
        else:
            p.need("SET")
            assigns = self._assignments(p, t, key)
            jt, jalias, cond = None, None, None
            if p.w("FROM"):
                if self.dialect not in ("postgresql", "mssql"):
                    raise SqlSyntaxError("UPDATE FROM not supported")
                jt = self.table(p.qid())
                jalias = jt.key[1]
                if not p.isw("WHERE"):
                    jalias = p.ident()
            if p.w("WHERE"):
                cond = p.balanced(stop_ops=())
        p.end()
        for r in t.rows:
            if jt is None:
                env = {alias: r}
                if cond is None or self._cond(cond, params, env):
                    self._assign(t, r, assigns, params, env)
            else:
                matches = [j for j in jt.rows if cond is None or self._cond(cond, params, {alias: r, jalias: j})]
                if matches:
                    self._assign(t, r, assigns, params, {alias: r, jalias: matches[0]})

    def _delete(self, p, params):
        self._check_params(p, params)
        key = p.qid()
        t = self.table(key)
        cond = None
        if p.w("WHERE"):
            cond = p.balanced(stop_ops=())
        p.end()
        keep = []
        gone = []
        for r in t.rows:
            if cond is None or self._cond(cond, params, {"": r}):
                gone.append(r)
            else:
                keep.append(r)
        for o in self.tables.values():
            for k in o.cons.values():
                if k.kind == "fk" and k.ref == t.key:
                    for g in gone:
                        gk = tuple(g[c] for c in k.refcols)
                        for r in o.rows:
                            if (o is not t or r in keep) and tuple(r[c] for c in k.cols) == gk:
                                raise DBError(f"delete violates foreign key {k.name}")
        t.rows[:] = keep

    def _select(self, p, params):
        names = [p.ident()]
        while p.op(","):
            names.append(p.ident())
        p.need("FROM")
        t = self.table(p.qid())
        cond = None
        if p.w("WHERE"):
            cond = p.balanced(stop_ops=())
        p.end()
        for n in names:
            if n not in t.cols:
                raise DBError(f"column does not exist: {t.key}.{n}")
        return [(tuple(names), tuple(r[n] for n in names)) for r in t.rows if cond is None or self._cond(cond, params, {"": r})]


def _name(tok):
    k, v = tok
    return v if k == "id" else v.lower() if k == "word" else None


def _number(text):
    return float(text) if any(c in text for c in ".eE") else int(text)


def _mysql_implicit(type):
    w = type[0][1]
    if w in ("VARCHAR", "MEDIUMTEXT", "TEXT", "LONGTEXT", "CHAR"):
        return ""
    if w == "ENUM":
        return [v for k, v in type if k == "str"][0]
    if w in ("BINARY", "VARBINARY", "MEDIUMBLOB", "LONGBLOB", "BLOB"):
        return b""
    return 0


def reset_identity(db):
    for t in db.tables.values():
        t.next_id = 1 + max(itertools.chain([0], (r[c.name] for c in t.cols.values() if c.identity for r in t.rows)))
