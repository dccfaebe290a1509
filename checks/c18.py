"""
C18: data classes derived from tables describe those tables.

Tables are either produced by the tool from generated data classes or made up directly. The classes derived from them are
inspected with standard introspection, with an own table of what each column type should become, and converted back.
"""

import datetime
import decimal
import ipaddress
import keyword
import sys
import types
import typing
import uuid

from hypothesis import strategies as st

import schema as S
from vh import Part, Result, check, check_equal

PROPERTY = "C18"
RULE = "there is a foreign key, an optional column, a default value, or a column with a length, a precision or a range"
ASSUMPTIONS = [
    "tables are converted with the generic converter of the tool, whose column types have a Python equivalent (no binary data, no inline enumerations or structures)",
    "enumeration and structure classes for user-defined types exist in the module before tables are converted",
    "keys of several columns have no counterpart in a class: the columns are plain, and tables with such a primary key are not converted back",
    "converting back is compared for types that a data class can produce: character(n), one-byte integers and time zones are not among them; neither are check constraints for lists of values",
    "names of columns are Python identifiers or keywords, of which no two coincide when an underscore is appended",
]

# ------------------------------------------------------------------------------------------------------------- oracle


def safe(name):
    return name + "_" if keyword.iskeyword(name) else name


class Shape:
    "A field type taken apart: tags, other annotations, optional or not, and what remains."

    def __init__(self, t):
        self.tags, self.meta, self.optional = set(), [], False
        self.base = self._strip(t)

    def _strip(self, t):
        from pysqlsync.model.key_types import DefaultTag

        while True:
            if typing.get_origin(t) is typing.Annotated:
                for m in t.__metadata__:
                    n = type(m).__name__
                    if n in ("PrimaryKeyTag", "IdentityTag", "UniqueTag"):
                        self.tags.add(n[:-3])
                    else:
                        self.meta.append(m)
                t = t.__origin__
            elif typing.get_origin(t) in (typing.Union, types.UnionType) and (type(None) in typing.get_args(t) or DefaultTag in typing.get_args(t)):
                args = typing.get_args(t)
                self.optional |= type(None) in args
                t = typing.Union[tuple(a for a in args if a not in (type(None), DefaultTag))]
            else:
                return t

    def get(self, name):
        found = [m for m in self.meta if type(m).__name__ == name]
        check(len(found) < 2, f"annotation {name} occurs more than once")
        return found[0] if found else None


BASE = {
    "SqlBooleanType": bool,
    "SqlIntegerType": int,
    "SqlFloatType": float,
    "SqlRealType": float,
    "SqlDoubleType": float,
    "SqlDecimalType": decimal.Decimal,
    "SqlTimestampType": datetime.datetime,
    "SqlDateType": datetime.date,
    "SqlTimeType": datetime.time,
    "SqlFixedCharacterType": str,
    "SqlVariableCharacterType": str,
    "SqlUuidType": uuid.UUID,
}
BUILTIN = {"inet": (ipaddress.IPv4Address, ipaddress.IPv6Address), "int1": int, "uint1": int, "uint2": int, "uint4": int, "uint8": int}
UNSUPPORTED = ("SqlIntervalType", "SqlFixedBinaryType", "SqlVariableBinaryType", "SqlEnumType", "SqlStructType")


def kind(data_type):
    for c in type(data_type).__mro__:
        if c.__name__ in BASE or c.__name__ in UNSUPPORTED or c.__name__ in ("SqlUserDefinedType", "SqlArrayType", "SqlJsonType"):
            return c.__name__
    raise AssertionError(f"unknown type: {data_type!r}")


def supported(data_type):
    k = kind(data_type)
    return supported(data_type.element_type) if k == "SqlArrayType" else k not in UNSUPPORTED


def check_type(shape, data_type, modules, what):
    "A field type admits all values of a column type, and says as much about them as the column type does."
    k, t = kind(data_type), shape.base
    if k == "SqlArrayType":
        check(typing.get_origin(t) is list and len(typing.get_args(t)) == 1, f"{what}: not a list: {t}")
        check_type(Shape(typing.get_args(t)[0]), data_type.element_type, modules, what + " item")
        return
    if k == "SqlJsonType":
        origins = {typing.get_origin(a) or a for a in typing.get_args(t)}
        check(origins == {bool, int, float, str, dict, list}, f"{what}: not JSON: {t}")
        return
    if k == "SqlUserDefinedType":
        id = data_type.ref
        if type(id).__name__ == "GlobalId":
            want = BUILTIN[id.local_id]
            got = typing.get_args(t) if typing.get_origin(t) is typing.Union else t
            check(got == want, f"{what}: {id.local_id} is a {t}")
            bits = {"int1": (-128, 127), "uint1": (0, 255), "uint2": (0, 65535), "uint4": (0, 2**32 - 1), "uint8": (0, 2**64 - 1)}.get(id.local_id)
            if bits:
                r = shape.get("IntegerRange")
                check_equal((r.minimum, r.maximum), bits, f"{what}: range")
        else:
            check(t is getattr(modules[id.scope_id], safe(id.local_id)), lambda: f"{what}: refers to {t}, not the class of {id}")
        return
    check(t is BASE[k], f"{what}: {k} has become a {t}")
    if k == "SqlIntegerType":
        bits = 8 * data_type.width
        lo = data_type.minimum if data_type.minimum is not None else (-(2 ** (bits - 1)) if data_type.signed else 0)
        hi = data_type.maximum if data_type.maximum is not None else 2 ** (bits - (1 if data_type.signed else 0)) - 1
        r, s, w = shape.get("IntegerRange"), shape.get("Storage"), shape.get("Signed")
        if r is not None:
            check_equal((r.minimum, r.maximum), (lo, hi), f"{what}: range")
        elif data_type.minimum is not None or data_type.maximum is not None:
            check(False, f"{what}: no range")
        if s is not None:
            check_equal((s.bytes, w.is_signed if w else True), (data_type.width, data_type.signed), f"{what}: storage")
        else:
            check(data_type.width in (1, 8), f"{what}: width is lost")
    elif k in ("SqlRealType", "SqlDoubleType"):
        s = shape.get("Storage")
        check((s.bytes if s else 8) == (4 if k == "SqlRealType" else 8), f"{what}: storage {s}")
    elif k == "SqlFloatType":
        p = shape.get("Precision")
        if data_type.precision is None:
            check(p is None, f"{what}: {p}")
        else:
            # binary digits necessary for a number of decimal digits, and the other way round
            check(p is not None and 2 ** (data_type.precision + 1) > 10 ** (p.significant_digits - 1), f"{what}: {p} for {data_type.precision} binary digits")
            check(10 ** (p.significant_digits + 1) > 2**data_type.precision, f"{what}: {p} for {data_type.precision} binary digits")
    elif k == "SqlDecimalType":
        p = shape.get("Precision")
        check_equal((p.significant_digits, p.decimal_digits) if p else None, (data_type.precision, data_type.scale or 0) if data_type.precision is not None else None, f"{what}: precision")
    elif k in ("SqlTimestampType", "SqlTimeType"):
        p = shape.get("TimePrecision")
        check_equal(p.decimal_digits if p else None, data_type.precision, f"{what}: precision")
    elif k == "SqlVariableCharacterType":
        n = shape.get("MaxLength")
        check_equal(n.value if n else None, data_type.limit, f"{what}: length")
    elif k == "SqlFixedCharacterType":
        n = shape.get("Length")
        check_equal(n.value if n else None, data_type.limit, f"{what}: length")


def references(table, column):
    "Tables that a column refers to, or None."
    for c in table.constraints.values():
        if getattr(c, "foreign_columns", None) == (column.name,):
            return [c.reference.table] if hasattr(c, "reference") else [r.table for r in c.references]
    return None


def resolve(t, module):
    "A field type with names of classes replaced by classes, which exist by now."
    if isinstance(t, str):
        return resolve(eval(t, dict(vars(module))), module)
    if isinstance(t, typing.ForwardRef):
        home = sys.modules[t.__forward_module__] if t.__forward_module__ else module
        try:
            return resolve(eval(t.__forward_arg__, dict(vars(home))), home)
        except NameError as e:
            check(False, f"refers to a class that does not exist: {e}")
    if typing.get_origin(t) is typing.Annotated:
        return typing.Annotated[(resolve(t.__origin__, module), *t.__metadata__)]
    if typing.get_origin(t) is typing.Union:
        return typing.Union[tuple(resolve(a, module) for a in typing.get_args(t))]
    if typing.get_origin(t) is list:
        return list[resolve(typing.get_args(t)[0], module)]
    return t


def words(s):
    return " ".join(s.split()) if s else None


def check_class(cls, table, modules, defaults):
    "Compares a class with the table from which it has been derived."
    import dataclasses

    from strong_typing.docstring import has_docstring, parse_type

    name = table.name.local_id
    module = modules[table.name.scope_id]
    check_equal(cls.__name__, safe(name), "class name")
    check(getattr(module, cls.__name__, None) is cls and cls.__module__ == module.__name__, f"class {name} is not in its module")
    hints = {f.name: resolve(f.type, module) for f in dataclasses.fields(cls)}
    fields = {f.name: f for f in dataclasses.fields(cls)}
    columns = list(table.columns.values())
    check_equal(sorted(fields), sorted(safe(c.name.local_id) for c in columns), f"fields of {name}")
    required = [safe(c.name.local_id) for c in columns if fields[safe(c.name.local_id)].default is dataclasses.MISSING]
    check_equal(list(fields)[: len(required)], required, f"order of required fields of {name}")
    doc = parse_type(cls) if has_docstring(cls) else None
    check_equal(words(doc.full_description) if doc else None, words(table.description), f"description of {name}")
    for c in columns:
        what = f"{name}.{c.name.local_id}"
        f = fields[safe(c.name.local_id)]
        shape = Shape(hints[f.name])
        if kind(c.data_type) != "SqlJsonType":  # JSON has a value null
            check_equal(shape.optional, c.nullable, f"{what}: optional")
        check_equal("PrimaryKey" in shape.tags, table.primary_key == (c.name,), f"{what}: primary key")
        check_equal("Identity" in shape.tags, c.identity, f"{what}: identity")
        if table.primary_key != (c.name,):
            check_equal("Unique" in shape.tags, any(getattr(k, "unique_columns", None) == (c.name,) for k in table.constraints.values()), f"{what}: unique")
        refs = references(table, c)
        if refs is not None:
            want = {getattr(modules[r.scope_id], safe(r.local_id)) for r in refs}
            got = set(typing.get_args(shape.base)) if typing.get_origin(shape.base) is typing.Union else {shape.base}
            check(got == want, lambda: f"{what}: refers to {got}, not {want}")
        else:
            check_type(shape, c.data_type, modules, what)
        want = defaults.get((name, c.name.local_id))
        if want is not None or c.default is None:
            got = None if f.default is dataclasses.MISSING else f.default
            check(type(got) is type(want) and got == want or got is want, lambda: f"{what}: default value {got!r}, not {want!r}")
        else:
            check(f.default is dataclasses.MISSING, lambda: f"{what}: default value {f.default!r} for an expression")
        param = doc.params.get(f.name) if doc else None
        check_equal(words(param.description) if param else None, words(c.description), f"{what}: description")


def comparable(table, exact):
    "What a table has to have in common with the table that the derived class is converted to."

    def ref(r):
        return [r.table.scope_id, safe(r.table.local_id), [safe(x.local_id) for x in r.columns]]

    columns, constraints = {}, []
    for c in table.columns.values():
        n = safe(c.name.local_id)
        columns[n] = [repr(c.data_type) if n in exact else None, c.nullable, c.default, c.identity, words(c.description)]
    for k in table.constraints.values():
        kind = type(k).__name__
        if len(getattr(k, "unique_columns", getattr(k, "foreign_columns", ()))) > 1:
            continue  # a class has no counterpart
        if hasattr(k, "unique_columns"):
            constraints.append([kind, [safe(x.local_id) for x in k.unique_columns]])
        elif hasattr(k, "reference"):
            constraints.append([kind, [safe(x.local_id) for x in k.foreign_columns], ref(k.reference)])
        elif hasattr(k, "references"):
            constraints.append([kind, [safe(x.local_id) for x in k.foreign_columns], sorted(map(ref, k.references), key=repr)])
        elif " IN (" not in k.condition:
            condition = k.condition
            for c in table.columns.values():
                condition = condition.replace(str(c.name), f'"{safe(c.name.local_id)}"')
            constraints.append([kind, condition])
    return {"columns": columns, "key": [safe(x.local_id) for x in table.primary_key], "constraints": sorted(constraints, key=repr), "doc": words(table.description)}


def producible(data_type):
    "Whether a data class has a type that is converted to the given type exactly."
    k = kind(data_type)
    if k == "SqlArrayType":
        return kind(data_type.element_type) not in ("SqlArrayType", "SqlJsonType") and producible(data_type.element_type)
    if k == "SqlFixedCharacterType" or k == "SqlJsonType":
        return False
    if k == "SqlIntegerType":
        return data_type.width > 1 and data_type.signed
    if k == "SqlDecimalType":
        return data_type.precision is None or data_type.scale is not None
    if k == "SqlFloatType":
        return data_type.precision in (4, 7, 10, 14, 17, 20, 24, 27, 30, 34, 37, 40, 44, 47, 50, 53)
    if k in ("SqlTimestampType", "SqlTimeType"):
        return not data_type.with_time_zone
    if k == "SqlUserDefinedType" and type(data_type.ref).__name__ == "GlobalId":
        return data_type.ref.local_id == "inet"
    return True


def convertible(data_type):
    "Whether a data class may have a field for a column, disregarding details of the type."
    k = kind(data_type)
    if k == "SqlArrayType":
        k = kind(data_type.element_type)
        return k not in ("SqlArrayType", "SqlJsonType") and getattr(getattr(data_type.element_type, "ref", None), "local_id", "") != "inet"
    return k != "SqlJsonType"


def derive(tables, modules):
    from pysqlsync.formation.sql_to_py import SqlConverterOptions, table_to_dataclass

    options = SqlConverterOptions(modules)
    return [table_to_dataclass(t, options) for t in tables]


def tables_of(catalog):
    return [t for n in catalog.namespaces.values() for t in n.tables.values()]


def back(classes, tables, modules, opts):
    "Converts derived classes to tables again."
    from strong_typing.auxiliary import Length

    from pysqlsync.formation.py_to_sql import ArrayMode, DataclassConverter, DataclassConverterOptions, EnumMode, NamespaceMapping, StructMode

    options = DataclassConverterOptions(
        enum_mode=EnumMode[opts[0]],
        struct_mode=StructMode.TYPE,
        array_mode=ArrayMode.ARRAY,
        namespaces=NamespaceMapping({m: ns for ns, m in modules.items()}),
        skip_annotations=(Length,),
    )
    converter = DataclassConverter(options=options)
    keyless = {t.name for t in tables if len(t.primary_key) > 1}  # a class has no counterpart
    for cls, table in zip(classes, tables):
        if table.name in keyless or any(r in keyless for c in table.columns.values() for r in references(table, c) or ()) or not all(convertible(c.data_type) for c in table.columns.values()):
            continue
        exact = {safe(c.name.local_id) for c in table.columns.values() if producible(c.data_type)}
        got = converter.dataclass_to_table(cls)
        check_equal([got.name.scope_id, got.name.local_id], [table.name.scope_id, safe(table.name.local_id)], "name of table converted back")
        a, b = comparable(got, exact), comparable(table, exact)
        for n, c in b["columns"].items():
            if c[2] is not None and n in a["columns"] and a["columns"][n][2] is None:
                c[2] = None  # expression; a missing default value is reported elsewhere
        for k in b:
            check(a[k] == b[k], lambda: f"{k} of {table.name.local_id}: {a[k]} converted back from {b[k]}")


# ---------------------------------------------------------------------------------------- tables made from data classes


@st.composite
def class_cases(draw):
    o = {"dialect": "postgresql", "enum_mode": draw(st.sampled_from(["TYPE", "RELATION", "CHECK"])), "struct_mode": "TYPE", "array_mode": "ARRAY"}
    spec = draw(S.schemas(o, cycles=draw(st.booleans())))
    return {"opts": o, "spec": spec}


def run_classes(case):
    from pysqlsync.formation.py_to_sql import ArrayMode, DataclassConverter, DataclassConverterOptions, EnumMode, NamespaceMapping, StructMode

    opts, spec = case["opts"], case["spec"]
    defaults = {}
    for m in spec["modules"]:
        for e in m["entities"]:
            for f in e["fields"]:
                d = f.get("default")
                if S.is_member(d):
                    # the class has the member, or the value where the column is not of the type
                    if opts["enum_mode"] != "RELATION" and f["type"][0] == "enum":
                        defaults[(e["name"], f["name"])] = (f["type"][1:], d[1]) if opts["enum_mode"] == "TYPE" else S.member_value(spec, f)
                elif d is not None:
                    defaults[(e["name"], f["name"])] = python_default(d)
    # lookup tables of enumerations become classes
    enums = [[e for e in m["enums"] if len(e["members"]) > 1 and opts["enum_mode"] != "RELATION"] for m in spec["modules"]]
    bare = {"modules": [{"ns": m["ns"], "enums": e, "structs": m["structs"], "entities": []} for m, e in zip(spec["modules"], enums)]}
    with S.Build(spec) as b:
        options = DataclassConverterOptions(
            enum_mode=EnumMode[opts["enum_mode"]],
            struct_mode=StructMode.TYPE,
            array_mode=ArrayMode.ARRAY,
            namespaces=NamespaceMapping({m: s["ns"] for m, s in zip(b.all_modules, spec["modules"])}),
        )
        catalog = DataclassConverter(options=options).modules_to_catalog(b.all_modules)
        tables = tables_of(catalog)
        # the same class name may be used in several modules
        names = [t.name.local_id for t in tables]
        if len(set(names)) != len(names):
            defaults = {k: v for k, v in defaults.items() if names.count(k[0]) == 1}
            tables = [t for t in tables if names.count(t.name.local_id) == 1 or all(c.default is None for c in t.columns.values())]
    if any(not supported(c.data_type) for t in tables for c in t.columns.values()):
        tables = [without_unsupported(t) for t in tables]
    with S.Build(bare, prefix="vd") as d:
        modules = {s["ns"]: m for m, s in zip(d.all_modules, bare["modules"])}
        for k, v in defaults.items():
            if isinstance(v, tuple):
                defaults[k] = d.cls(*v[0])[v[1]]
        while True:
            have = {(t.name.scope_id, t.name.local_id) for t in tables}
            some = [t for t in tables if all((r.scope_id, r.local_id) in have for c in t.columns.values() for r in references(t, c) or ())]
            if len(some) == len(tables):
                break
            tables = some
        classes = derive(tables, modules)
        for cls, t in zip(classes, tables):
            check_class(cls, t, modules, defaults)
        back(classes, tables, modules, [opts["enum_mode"]])
    return summary(tables)


def summary(tables):
    labels, some = set(), False
    for t in tables:
        for c in t.columns.values():
            labels.add(kind(c.data_type))
            refs = references(t, c)
            if refs:
                labels.add("foreign key" + (" optional" if c.nullable else "") if len(refs) == 1 else "discriminated key")
            some |= bool(refs) or c.nullable or c.default is not None or any(v is not None for k, v in vars(c.data_type).items() if k in ("limit", "precision", "minimum"))
    return Result(some and bool(tables), sorted(labels))


def python_default(d):
    if isinstance(d, list):
        tag, x = d
        if tag == "datetime":
            v = datetime.datetime.fromisoformat(x)
            return v.astimezone(datetime.timezone.utc).replace(tzinfo=None) if v.tzinfo else v
        return decimal.Decimal(x) if tag == "decimal" else float(x)
    return d


def without_unsupported(t):
    from pysqlsync.formation.object_types import Table

    gone = {c.name for c in t.columns.values() if not supported(c.data_type)}
    check(not gone & set(t.primary_key), "unsupported key")
    return Table(
        t.name,
        [c for c in t.columns.values() if c.name not in gone],
        primary_key=t.primary_key,
        constraints=[k for k in t.constraints.values() if not gone & set(getattr(k, "unique_columns", ()) or getattr(k, "foreign_columns", ()))],
        description=t.description,
    )


# --------------------------------------------------------------------------------------------- tables made up directly

COLUMNS = ["name", "class", "from", "order", "value", "größe", "None", "x1", "lambda", "match", "_a", "Type"]
TABLES = ["Person", "order", "class", "Team", "True", "Größe"]
LIMIT = st.one_of(st.none(), st.integers(1, 4000))
PREC = st.one_of(st.none(), st.integers(0, 9))
SCALARS = st.one_of(
    st.just(["SqlBooleanType"]),
    st.tuples(st.sampled_from([1, 2, 4, 8]), st.sampled_from([True, True, True, False])).map(lambda x: ["SqlIntegerType", *x]),
    st.tuples(st.sampled_from([2, 4, 8]), st.integers(-100, 0), st.integers(1, 30000)).map(lambda x: ["SqlIntegerType", x[0], True, x[1], x[2]]),
    st.one_of(st.none(), st.integers(1, 53)).map(lambda p: ["SqlFloatType", p]),
    st.sampled_from([["SqlRealType"], ["SqlDoubleType"], ["SqlDateType"], ["SqlUuidType"]]),
    st.sampled_from([["SqlDecimalType"], ["SqlDecimalType", 10, 2], ["SqlDecimalType", 5, 0], ["SqlDecimalType", 38, 38], ["SqlDecimalType", 7]]),
    st.tuples(PREC, st.booleans()).map(lambda x: ["SqlTimestampType", *x]),
    st.tuples(PREC, st.booleans()).map(lambda x: ["SqlTimeType", *x]),
    LIMIT.map(lambda n: ["SqlFixedCharacterType", n]),
    LIMIT.map(lambda n: ["SqlVariableCharacterType", n]),
    st.sampled_from([["global", "inet"], ["global", "int1"], ["global", "uint1"], ["global", "uint2"], ["global", "uint4"], ["global", "uint8"], ["user", "app", "Color"], ["user", None, "Level"]]),
)
TYPES = st.one_of(SCALARS, SCALARS, SCALARS, SCALARS.map(lambda t: ["array", t]), st.just(["SqlJsonType"]))
TEXT = st.one_of(st.sampled_from(["", "x", "it's", "''", "a;b", "TRUE", "0", "ä", "NULL", "new\nline", "back\\slash"]), st.text(max_size=8).filter(lambda s: "\0" not in s))
EXPRESSIONS = ["CURRENT_TIMESTAMP", "gen_random_uuid()", "nextval('seq')", "'a' || 'b'", "(1 + 2)", "NULL", "upper('x')"]


def sql_text(s):
    return "'" + s.replace("'", "''") + "'"


@st.composite
def default_values(draw, t):
    "An SQL expression, and the Python value it denotes as [tag, text], if any."
    if draw(st.integers(0, 4)) == 0:
        return [draw(st.sampled_from(EXPRESSIONS)), None]
    k = t[0]
    if k == "SqlBooleanType":
        v = draw(st.booleans())
        return ["TRUE" if v else "FALSE", ["bool", v]]
    if k == "SqlIntegerType":
        v = draw(st.sampled_from([0, 1, -1, 42, 100]))
        return [str(v), ["int", v]]
    if k in ("SqlFloatType", "SqlRealType", "SqlDoubleType"):
        v = draw(st.sampled_from(["0.0", "1.5", "-2.25", "1e+100"]))
        return [v, ["float", v]]
    if k == "SqlDecimalType":
        v = draw(st.sampled_from(["0", "1.50", "-3"]))
        return [v, ["decimal", v]]
    if k in ("SqlFixedCharacterType", "SqlVariableCharacterType"):
        v = draw(TEXT)
        return [sql_text(v), ["str", v]]
    if k == "SqlTimestampType":
        v = draw(st.sampled_from(["1989-10-24 23:59:59", "2000-01-01 00:00:00.123456"]))
        return [sql_text(v), ["datetime", v]]
    if k == "SqlDateType":
        return ["'1989-10-24'", ["date", "1989-10-24"]]
    if k == "SqlTimeType":
        return ["'23:59:59'", ["time", "23:59:59"]]
    return ["gen()", None]


@st.composite
def table_cases(draw):
    ns = draw(st.sampled_from([["app"], [None], ["app", None], ["app", "core"]]))
    ids = draw(st.lists(st.tuples(st.sampled_from(ns), st.sampled_from(TABLES)), min_size=1, max_size=4, unique_by=lambda x: x[1]))
    keys = {}
    out = []
    for s, n in ids:
        keys[n] = draw(st.sampled_from([["SqlIntegerType", 8, True], ["SqlUuidType"], ["SqlVariableCharacterType", 32], ["SqlIntegerType", 4, True]]))
    for s, n in ids:
        names = draw(st.lists(st.sampled_from(COLUMNS), min_size=1, max_size=6, unique=True))
        at = draw(st.integers(0, len(names) - 1))
        columns = []
        for i, c in enumerate(names):
            if i == at:
                col = {"name": c, "type": keys[n], "null": False, "key": True, "identity": keys[n][0] == "SqlIntegerType" and draw(st.booleans())}
            else:
                col = {"name": c, "type": draw(TYPES), "null": draw(st.booleans())}
                r = draw(st.integers(0, 5))
                if r == 0:
                    to = draw(st.sampled_from([x[1] for x in ids]))
                    col.update(type=keys[to], refs=[to])
                elif r == 1:
                    pairs = [[a[1], b[1]] for a in ids for b in ids if a[1] < b[1] and keys[a[1]] == keys[b[1]]]
                    if pairs:
                        to = draw(st.sampled_from(pairs))
                        col.update(type=keys[to[0]], refs=to)
                elif r == 2 and col["type"][0] in ("SqlIntegerType", "SqlVariableCharacterType"):
                    col["unique"] = True
                if draw(st.integers(0, 3)) == 0:
                    col["default"] = draw(default_values(col["type"]))
            if draw(st.integers(0, 3)) == 0:
                col["doc"] = draw(st.sampled_from(S.DOCS))
            columns.append(col)
        t = {"ns": s, "name": n, "columns": columns, "doc": draw(st.sampled_from([None, None] + S.DOCS))}
        # constraints that involve several columns
        if len(names) > 1:
            several = st.lists(st.sampled_from(names), min_size=2, max_size=3, unique=True)
            t["together"] = draw(st.lists(several, max_size=2)) if draw(st.integers(0, 3)) == 0 else []
            if draw(st.integers(0, 5)) == 0:
                t["refers"] = [draw(several), draw(st.sampled_from([x[1] for x in ids]))]
            if draw(st.integers(0, 9)) == 0:
                t["key"] = [names[at]] + draw(several.map(lambda x: [n for n in x if n != names[at]]))
        out.append(t)
    return {"ns": ns, "tables": out}


def column_type(t):
    import pysqlsync.model.data_types as D
    from pysqlsync.model.id_types import GlobalId, QualifiedId

    if t[0] == "global":
        return D.SqlUserDefinedType(GlobalId(t[1]))
    if t[0] == "user":
        return D.SqlUserDefinedType(QualifiedId(t[1], t[2]))
    if t[0] == "array":
        return D.SqlArrayType(column_type(t[1]))
    return getattr(D, t[0])(*t[1:])


def value(v):
    tag, x = v
    return {"bool": bool, "int": int, "str": str, "float": float, "decimal": decimal.Decimal, "datetime": datetime.datetime.fromisoformat, "date": datetime.date.fromisoformat, "time": datetime.time.fromisoformat}[tag](x)


def user_types(t):
    return [t[1]] if t[0] == "user" else user_types(t[1]) if t[0] == "array" else []


def run_tables(case):
    from pysqlsync.formation.object_types import CheckConstraint, Column, ConstraintReference, DiscriminatedConstraint, ForeignConstraint, Table, UniqueConstraint
    from pysqlsync.model.id_types import LocalId, QualifiedId

    where = {t["name"]: t["ns"] for t in case["tables"]}
    key = {t["name"]: next(c["name"] for c in t["columns"] if c.get("key")) for t in case["tables"]}
    spaces = list(dict.fromkeys(case["ns"] + ["app", None]))
    spec = {"modules": [{"ns": ns, "enums": [{"name": n, "members": [["m0", "a"], ["m1", "b"]]} for n in ("Color", "Level")], "structs": [], "entities": []} for ns in spaces]}
    tables, defaults = [], {}
    for t in case["tables"]:
        columns, constraints = [], []
        for c in t["columns"]:
            d = c.get("default")
            columns.append(Column(LocalId(c["name"]), column_type(c["type"]), c["null"], default=d[0] if d else None, identity=c.get("identity", False), description=c.get("doc")))
            if d and d[1] is not None:
                defaults[(t["name"], c["name"])] = value(d[1])
            refs = [ConstraintReference(QualifiedId(where[r], r), (LocalId(key[r]),)) for r in c.get("refs", ())]
            cols = (LocalId(c["name"]),)
            if len(refs) == 1:
                constraints.append(ForeignConstraint(LocalId("fk_" + c["name"]), cols, refs[0]))
            elif refs:
                constraints.append(DiscriminatedConstraint(LocalId("dk_" + c["name"]), cols, refs))
            if c.get("unique"):
                constraints.append(UniqueConstraint(LocalId("uq_" + c["name"]), cols))
            if c["type"][0] == "SqlIntegerType" and len(c["type"]) > 3 and not c.get("refs"):
                i = LocalId(c["name"])
                constraints.append(CheckConstraint(LocalId("ch_" + c["name"]), f"({i} >= {c['type'][3]}) AND ({i} <= {c['type'][4]})"))
        for i, cols in enumerate(t.get("together", ())):
            constraints.append(UniqueConstraint(LocalId(f"uq_{i}_several"), tuple(map(LocalId, cols))))
        if t.get("refers"):
            cols, r = t["refers"]
            constraints.append(ForeignConstraint(LocalId("fk_several"), tuple(map(LocalId, cols)), ConstraintReference(QualifiedId(where[r], r), tuple(LocalId(f"k{i}") for i in range(len(cols))))))
        tables.append(Table(QualifiedId(t["ns"], t["name"]), columns, primary_key=tuple(map(LocalId, t.get("key") or [key[t["name"]]])), constraints=constraints, description=t["doc"]))
    with S.Build(spec, prefix="vd") as b:
        modules = dict(zip(spaces, b.all_modules))
        classes = derive(tables, modules)
        for cls, t in zip(classes, tables):
            check_class(cls, t, modules, defaults)
        back(classes, tables, modules, ["TYPE"])
    return summary(tables)


PARTS = [
    Part("classes", class_cases, run_classes, quick=500, thorough=10000),
    Part("tables", table_cases, run_tables, quick=800, thorough=20000),
]
