"""
C15: discovered column types equal the types that were created.

Columns are created on the reference database by the tool; the explorer of the tool discovers them from the catalogue of
that database (lib/catalogue.py). The type discovered, as the tool writes it, must be the type that the column has as far
as the database tells types apart: a column created with it is reported alike.
"""

from hypothesis import strategies as st

import catalogue
import drivers
import migrate
import refdb
import schema as S
from checks import c14
from vh import HarnessError, Part, Result, check, check_equal

PROPERTY = "C15"
RULE = "at least one column has a type with a length, precision, scale, time zone, label or item type, or a user-defined type"
ASSUMPTIONS = [
    "types are equal if the database reports columns of these types alike (synonyms such as double precision and float(53) in Microsoft SQL Server)",
    "the catalogue reports types as documented by the vendors (lib/catalogue.py); Redshift, Delta Lake, Snowflake and Trino are not covered",
    "the reference database accepts what the real databases accept",
]

# ------------------------------------------------------------------------------------------------------------ oracle


def probe(db, ctx, type):
    "How the catalogue reports a column of a type."
    from pysqlsync.model.id_types import LocalId

    text = ctx.connection.generator.factory.column_class(LocalId("c"), type, True).column_spec.replace('"public".', "")
    other = db.clone()
    schema = '"vm_probe".' if db.dialect in ("postgresql", "mssql") else ""
    if schema:
        other.execute('CREATE SCHEMA "vm_probe";')
    other.execute(f'CREATE TABLE {schema}"vm_probe" ({text});')
    return catalogue.described(other, other.tables[("vm_probe" if schema else "", "vm_probe")].cols["c"].type)


def compare(db, ctx, explorer, tables):
    "Compares the types of all columns with those discovered."
    import pysqlsync.model.data_types as T

    for id, key in tables:
        try:
            found = drivers.run_async(explorer.get_table(id))
        except TypeError as e:
            check(False, f"columns of {key}: {e}\n{[refdb.canon(c.type) for c in db.tables[key].cols.values()]}")
        actual = db.tables[key]
        check([c.name.local_id for c in found.columns.values()] == list(actual.cols), lambda: f"columns of {key}: {found}")
        for c in found.columns.values():
            col = actual.cols[c.name.local_id]
            wanted = catalogue.described(db, col.type)
            text = str(c.data_type)
            try:
                got = probe(db, ctx, c.data_type)
            except (refdb.DBError, refdb.SqlSyntaxError) as e:
                check(False, f"column of type {refdb.canon(col.type)} is discovered as {text}: {e}")
            check(got == wanted, lambda: f"column of type {refdb.canon(col.type)}, reported as {wanted}, is discovered as {text} ({c.data_type!r})")
            user = isinstance(c.data_type, T.SqlUserDefinedType) and "inet" not in text
            check(user == bool(db._type_refs(col.type)) or isinstance(c.data_type, T.SqlArrayType), lambda: f"column of type {refdb.canon(col.type)} is discovered as {c.data_type!r}")


def compare_types(db, ctx, explorer):
    "Compares the members of composite types with those discovered."
    from pysqlsync.model.id_types import QualifiedId

    for key, t in db.types.items():
        if hasattr(t, "values"):
            continue
        found = drivers.run_async(explorer.get_struct(QualifiedId(key[0] or "public", key[1])))
        check([m.name.local_id for m in found.members.values()] == list(t.members), lambda: f"members of {key}: {found}")
        for m in found.members.values():
            type = t.members[m.name.local_id]
            wanted, text = catalogue.described(db, type), str(m.data_type)
            check(probe(db, ctx, m.data_type) == wanted, lambda: f"member of type {refdb.canon(type)}, reported as {wanted}, is discovered as {text} ({m.data_type!r})")


# ------------------------------------------------------------------------------------------------------ part "fields"

NAMES = ["Text", "Number", "Date", "Time", "Json", "Real", "Interval", "Color", "Boolean", "Uuid", "Decimal"]


@st.composite
def field_cases(draw):
    case = draw(c14.cases().filter(lambda c: c["opts"]["dialect"] in S.RELATIONAL))
    # (whether a union of entities with different keys is refused, C14 decides)
    by = {e["name"]: e for e in case["spec"]["modules"][0]["entities"]}
    by["Third"]["fields"][0] = dict(by["Other"]["fields"][0])
    # enumerations and structures may be called like a built-in type
    if draw(st.booleans()):
        mod = case["spec"]["modules"][0]
        old = ["Number", "Text", "Struct"]
        new = dict(zip(old, draw(st.lists(st.sampled_from(NAMES), min_size=3, max_size=3, unique=True))))
        for name in old:
            S.rename(case["spec"], 0, name, "Vm" + name, ("enum", "struct"))
        for name in old:
            S.rename(case["spec"], 0, "Vm" + name, new[name], ("enum", "struct"))
        for c in mod["enums"] + mod["structs"]:
            c["name"] = new.get(c["name"], c["name"])
    return case


def run_fields(case):
    from pysqlsync.factory import get_dialect

    opts, spec = case["opts"], case["spec"]
    dialect = opts["dialect"]
    with S.Build(spec) as b:
        db = refdb.RefDB(dialect)
        db.relax_df_names = True
        ctx = drivers.make_context(dialect, catalogue.CatalogueBackend(db), S.make_options(opts, b))
        g = ctx.connection.generator
        migrate.execute(db, g.create(modules=b.modules), "creation script")
        explorer = get_dialect(dialect).create_explorer(ctx)
        tables = []
        for ns in g.state.namespaces.values():
            for t in ns.tables.values():
                key = ("", t.name.local_id) if dialect in S.PREFIXED else (t.name.scope_id or "", t.name.local_id)
                tables.append((t.name, key))
        compare(db, ctx, explorer, tables)
        if dialect == "postgresql":
            compare_types(db, ctx, explorer)
        texts = [refdb.canon(c.type) for t in db.tables.values() for c in t.cols.values()]
    return Result(any("(" in t or '"' in t for t in texts), [dialect, "/".join(S.effective(opts))])


# ------------------------------------------------------------------------------------------------------- part "types"


def make(dialect, d):
    "Creates a column type object."
    import pysqlsync.model.data_types as T

    k, args = d[0], d[1:]
    if k == "array":
        return T.SqlArrayType(make(dialect, d[1]))
    if k == "int":
        if dialect == "oracle":
            from pysqlsync.dialect.oracle.data_types import OracleIntegerType

            return OracleIntegerType()
        return T.SqlIntegerType(*args)
    if k == "varchar":
        if dialect == "mysql":
            from pysqlsync.dialect.mysql.data_types import MySQLVariableCharacterType as C
        elif dialect == "mssql":
            from pysqlsync.dialect.mssql.data_types import MSSQLEncoding, MSSQLVariableCharacterType

            return MSSQLVariableCharacterType(d[1], MSSQLEncoding.UTF16 if d[2] else None)
        elif dialect == "oracle":
            from pysqlsync.dialect.oracle.data_types import OracleVariableCharacterType as C
        else:
            C = T.SqlVariableCharacterType
        return C(d[1])
    if k == "varbinary":
        if dialect == "mysql":
            from pysqlsync.dialect.mysql.data_types import MySQLVariableBinaryType as C
        elif dialect == "oracle":
            from pysqlsync.dialect.oracle.data_types import OracleVariableBinaryType as C
        else:
            C = T.SqlVariableBinaryType
        return C(d[1])
    if k == "boolean" and dialect == "mssql":
        from pysqlsync.dialect.mssql.data_types import MSSQLBooleanType

        return MSSQLBooleanType()
    if k == "timestamp":
        if dialect == "mysql":
            from pysqlsync.dialect.mysql.data_types import MySQLDateTimeType

            return MySQLDateTimeType(d[1])
        if dialect == "mssql":
            from pysqlsync.dialect.mssql.data_types import MSSQLDateTimeType

            return MSSQLDateTimeType()
        if dialect == "oracle":
            from pysqlsync.dialect.oracle.data_types import OracleTimestampType

            return OracleTimestampType(d[1], d[2])
    if k == "time" and dialect == "oracle":
        from pysqlsync.dialect.oracle.data_types import OracleTimeType

        return OracleTimeType()
    if k == "json" and dialect == "postgresql" and args:
        from pysqlsync.dialect.postgresql.data_types import PostgreSQLJsonType

        return PostgreSQLJsonType()
    C = {
        "uuid": T.SqlUuidType,
        "boolean": T.SqlBooleanType,
        "real": T.SqlRealType,
        "double": T.SqlDoubleType,
        "float": T.SqlFloatType,
        "decimal": T.SqlDecimalType,
        "char": T.SqlFixedCharacterType,
        "binary": T.SqlFixedBinaryType,
        "timestamp": T.SqlTimestampType,
        "time": T.SqlTimeType,
        "date": T.SqlDateType,
        "interval": T.SqlIntervalType,
        "json": T.SqlJsonType,
        "enum": T.SqlEnumType,
    }.get(k)
    if C is None:
        raise HarnessError(d)
    return C(*args)


LABEL = st.text(st.sampled_from("ab'\\,() \n\"%;é"), min_size=1, max_size=6).filter(lambda s: s == s.strip(" "))


def descriptors(dialect):
    zone = st.booleans() if dialect in ("postgresql", "oracle") else st.just(False)
    digits = st.one_of(st.none(), st.integers(0, 9 if dialect == "oracle" else 7 if dialect == "mssql" else 6))
    top = {"postgresql": 65535, "mysql": 16383, "mssql": 8000, "oracle": 2000}[dialect]
    n = st.one_of(st.sampled_from([1, 2, 16, 255, 256, 2000]), st.integers(1, 2000))
    most = {"postgresql": 100, "mysql": 65, "mssql": 38, "oracle": 38}[dialect]
    decimals = st.integers(1, most).flatmap(lambda p: st.tuples(st.just("decimal"), st.just(p), st.integers(0, min(p, 30))))
    out = [
        st.sampled_from([("int", 2), ("int", 4), ("int", 8), ("real",), ("double",), ("date",)]),
        st.one_of(st.just(("decimal",)), decimals, decimals),
        st.tuples(st.just("float"), st.one_of(st.none(), st.integers(1, 53))),
        st.tuples(st.just("char"), st.one_of(st.none(), st.integers(1, 255))),
        st.tuples(st.just("timestamp"), digits, zone),
    ]
    if dialect == "oracle":
        out.append(st.just(("time",)))
    else:
        out.append(st.tuples(st.just("time"), digits, zone))
    if dialect == "mssql":
        out.append(st.tuples(st.just("varchar"), st.one_of(st.none(), n, st.just(4000)), st.booleans()))
        out.append(st.tuples(st.just("varchar"), st.sampled_from([4001, 8000]), st.just(False)))
    else:
        out.append(st.tuples(st.just("varchar"), st.one_of(st.none(), n, st.just(top))))
    if dialect != "mysql":
        out.append(st.just(("boolean",)))
    else:
        out.append(st.just(("int", 1)))
        out.append(st.tuples(st.just("enum"), st.lists(LABEL, min_size=1, max_size=4, unique_by=str.casefold)))
    if dialect == "postgresql":
        out.append(st.sampled_from([("uuid",), ("interval",), ("json",), ("json", True)]))
    else:
        if dialect != "oracle":
            out.append(st.tuples(st.just("binary"), st.integers(1, 255)))
        if dialect == "mssql":
            out.append(st.tuples(st.just("varbinary"), n))
        else:
            out.append(st.tuples(st.just("varbinary"), st.one_of(st.none(), n)))
        if dialect == "mysql":
            out.append(st.just(("json",)))
    one = st.one_of(out)
    if dialect == "postgresql":
        return st.one_of(one, one, st.tuples(st.just("array"), one))
    return one


def stored_as_written(dialect, d):
    "Whether the product reports the type in the form in which it was declared."
    k, args = d[0], d[1:]
    if k == "array":
        return stored_as_written(dialect, d[1])
    if k in ("char", "decimal") and args in ([], [None]):
        return k == "decimal" and dialect == "postgresql"  # length of one; precision of the product
    if k in ("float", "real", "double"):
        # another name for a type of the precision
        return (dialect, k) in (("mssql", "real"), ("mysql", "double"), ("postgresql", "double"), ("postgresql", "real"))
    if k in ("varchar", "varbinary") and args == [None]:
        return dialect != "mysql"  # a type of the size MEDIUMTEXT or MEDIUMBLOB
    if k in ("time", "timestamp") and args:
        # precision of the product
        return args[0] != {"mysql": 0, "oracle": 6}.get(dialect, -1) and (dialect, k, args[0]) != ("mssql", "time", None)
    return True


@st.composite
def type_cases(draw):
    dialect = draw(st.sampled_from(S.RELATIONAL))
    types = draw(st.lists(descriptors(dialect), min_size=1, max_size=6))
    return {"dialect": dialect, "types": [list(t) for t in types], "schema": draw(st.sampled_from([None, "app"]))}


def run_types(case):
    from pysqlsync.factory import get_dialect
    from pysqlsync.model.id_types import LocalId, PrefixedId, QualifiedId

    dialect, schema = case["dialect"], case["schema"]
    db = refdb.RefDB(dialect)
    ctx = drivers.make_context(dialect, catalogue.CatalogueBackend(db), None)
    factory = ctx.connection.generator.factory
    id = (PrefixedId if dialect in S.PREFIXED else QualifiedId)(schema, "Main")
    if schema and dialect not in S.PREFIXED:
        db.execute(f'CREATE SCHEMA "{schema}";')
    types = [make(dialect, d) for d in case["types"]]
    columns = [factory.column_class(LocalId("id"), make(dialect, ["int", 8]), False)]
    columns += [factory.column_class(LocalId(f"c{i}"), t, True) for i, t in enumerate(types)]
    table = factory.table_class(name=id, columns=columns, primary_key=(LocalId("id"),))
    migrate.execute(db, table.create_stmt(), "creation script")
    key = ("", id.local_id) if dialect in S.PREFIXED else (schema or "", "Main")
    explorer = get_dialect(dialect).create_explorer(ctx)
    compare(db, ctx, explorer, [(id, key)])
    # ... and unless the product has changed it, the type is the same, hence a comparison yields no difference
    found = drivers.run_async(explorer.get_table(id))
    for i, (d, t) in enumerate(zip(case["types"], types)):
        d = [list(x) if isinstance(x, tuple) else x for x in d]
        if stored_as_written(dialect, d):
            check_equal(found.columns[f"c{i}"].data_type, make(dialect, case["types"][i]), f"{dialect}: type of a column created as {t}")
    return Result(any("(" in str(t) for t in types), [dialect])


# ----------------------------------------------------------------------------------------------------- part "unknown"

UNKNOWN = {
    "mysql": ["year", "bit", "set", "geometry", "point", "polygon", "mediumint", "linestring", "geomcollection", "vector"],
    "mssql": ["money", "smallmoney", "datetimeoffset", "smalldatetime", "image", "ntext", "nchar", "xml", "sql_variant", "hierarchyid", "geography", "geometry", "rowversion", "timestamp"],
    "oracle": ["BINARY_FLOAT", "BINARY_DOUBLE", "NCLOB", "BFILE", "ROWID", "UROWID", "LONG RAW", "NVARCHAR2", "NCHAR", "INTERVAL YEAR(2) TO MONTH", "VECTOR"],
    "postgresql": ["money", "point", "xml", "cidr", "macaddr", "int8range", "bit", "varbit", "tsvector", "oid", "polygon", "xid8", "pg_lsn"],
}


@st.composite
def unknown_cases(draw):
    dialect = draw(st.sampled_from(S.RELATIONAL))
    name = draw(st.one_of(st.sampled_from(UNKNOWN[dialect]), st.text("abcdeintvrxy_0123", min_size=3, max_size=12).map(lambda s: "x" + s)))
    user = draw(st.booleans()) if dialect in ("postgresql", "oracle") else False
    if user:
        name = draw(st.one_of(st.just(name), st.sampled_from(NAMES + ["int", "INTEGER", "varchar", "Timestamp", "date", "NUMBER", "CLOB", "jsonb", "inet", "uuid"])))
    return {
        "dialect": dialect,
        "name": name if dialect != "oracle" or user else name.upper(),
        "schema": draw(st.sampled_from(["app", "public", "Pg_Catalog"])) if user else None,
        "length": draw(st.sampled_from([None, 1, 8, 16])),
        "precision": draw(st.sampled_from([None, 0, 10, 53])),
        "scale": draw(st.sampled_from([None, 0, 4])),
    }


def run_unknown(case):
    import pysqlsync.model.data_types as T
    from pysqlsync.factory import get_dialect

    dialect, name, schema = case["dialect"], case["name"], case["schema"]
    ctx = drivers.make_context(dialect, catalogue.CatalogueBackend(refdb.RefDB(dialect)), None)
    discovery = get_dialect(dialect).create_explorer(ctx).discovery
    if schema is None and dialect == "postgresql":
        schema = "pg_catalog"
    definition = {"mssql": None, "postgresql": name if case["schema"] is None else f'{schema}."{name}"', "mysql": f"{name}({case['precision']})" if case["precision"] else name, "oracle": name}[dialect]
    if schema is not None and dialect == "oracle":
        definition = name
    try:
        t = discovery.sql_data_type_from_spec(
            type_name=name.split("(")[0],
            type_schema=schema,
            type_def=definition,
            character_maximum_length=case["length"],
            numeric_precision=case["precision"],
            numeric_scale=case["scale"],
            datetime_precision=None,
        )
    except TypeError:
        check(case["schema"] is None, f"user-defined type {schema}.{name} is not recognised")
        return Result(True, [dialect, "refused"])
    check(isinstance(t, T.SqlUserDefinedType), lambda: f"type {name} of schema {schema} is recognised as {t!r}")
    if (dialect, name) == ("mssql", "timestamp"):
        return Result(True, [dialect, "user-defined"])  # the synonym rowversion
    check(t.ref.local_id == name.split("(")[0] and t.ref.scope_id == schema, lambda: f"type {name} of schema {schema} is recognised as {t!r}")
    return Result(True, [dialect, "user-defined"])


PARTS = [
    Part("fields", field_cases, run_fields, quick=750, thorough=10000),
    Part("types", type_cases, run_types, quick=1050, thorough=15000),
    Part("unknown", unknown_cases, run_unknown, quick=900, thorough=10000),
]
