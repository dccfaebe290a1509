"""
C17: the common type of several column types loses nothing.

Part "types": column types of a dialect are combined in every order and grouping; the result must hold the values of
each operand by a reference interpretation of column types (range of integers, significant bits, length of text and
binary), whatever the order. Part "unions": the same through a class with a field whose type is a union.
"""

import itertools

from hypothesis import strategies as st

import schema as S
from vh import HarnessError, Part, Result, check, check_equal

PROPERTY = "C17"
RULE = "at least two different types are combined, and they have a common type"
ASSUMPTIONS = [
    "the types combined are types of one dialect, which has one class for each kind of type, and text has one encoding",
    "a column type of fixed length holds shorter values, padded (as the test suite has it for network addresses)",
    "a fixed-length type states its length; a variable-length type without a limit holds values of any length",
]
DIALECTS = ("ansi", "postgresql", "mysql", "mssql", "oracle", "redshift", "delta", "snowflake")

# ------------------------------------------------------------------------------------------------------------- types


def make(dialect, d, i=0):
    "Creates a column type; an operand is a new object, never shared."
    import pysqlsync.model.data_types as T

    k = d[0]
    if k == "int":
        if dialect == "oracle":
            from pysqlsync.dialect.oracle.data_types import OracleIntegerType

            t = OracleIntegerType()
            t.signed, t.minimum, t.maximum = True, d[3], d[4]
            return t
        return T.SqlIntegerType(d[1], d[2], d[3], d[4])
    if k == "float":
        return T.SqlFloatType(d[1])
    if k in ("real", "double"):
        if dialect == "delta":
            import pysqlsync.dialect.delta.data_types as X

            return (X.DeltaRealType if k == "real" else X.DeltaDoubleType)()
        return (T.SqlRealType if k == "real" else T.SqlDoubleType)()
    if k == "char":
        return T.SqlFixedCharacterType(d[1])
    if k == "varchar":
        if dialect == "mysql":
            from pysqlsync.dialect.mysql.data_types import MySQLVariableCharacterType as C
        elif dialect == "mssql":
            from pysqlsync.dialect.mssql.data_types import MSSQLEncoding, MSSQLVariableCharacterType

            return MSSQLVariableCharacterType(d[1], MSSQLEncoding.UTF16 if d[2] else None)
        elif dialect == "oracle":
            from pysqlsync.dialect.oracle.data_types import OracleVariableCharacterType as C
        elif dialect == "redshift":
            from pysqlsync.dialect.redshift.data_types import RedshiftVariableCharacterType as C
        elif dialect == "delta":
            from pysqlsync.dialect.delta.data_types import DeltaVariableCharacterType as C
        else:
            C = T.SqlVariableCharacterType
        return C(d[1])
    if k == "binary":
        if dialect == "delta":
            from pysqlsync.dialect.delta.data_types import DeltaFixedBinaryType

            return DeltaFixedBinaryType(d[1])
        return T.SqlFixedBinaryType(d[1])
    if k == "varbinary":
        if dialect == "mysql":
            from pysqlsync.dialect.mysql.data_types import MySQLVariableBinaryType as C
        elif dialect == "oracle":
            from pysqlsync.dialect.oracle.data_types import OracleVariableBinaryType as C
        elif dialect == "redshift":
            from pysqlsync.dialect.redshift.data_types import RedshiftVariableBinaryType as C
        elif dialect == "delta":
            from pysqlsync.dialect.delta.data_types import DeltaVariableBinaryType as C
        else:
            C = T.SqlVariableBinaryType
        return C(d[1])
    if k == "other":
        return {
            "uuid": T.SqlUuidType,
            "boolean": T.SqlBooleanType,
            "date": T.SqlDateType,
            "timestamp": T.SqlTimestampType,
            "decimal": T.SqlDecimalType,
            "json": T.SqlJsonType,
            "interval": T.SqlIntervalType,
        }[d[1]]()
    raise HarnessError(d)


INF = float("inf")


def holds(t):
    """
    What a column type holds.

    :returns: A kind, and for each dimension an upper limit: a type holds what another of the kind does if no limit is lower.
    """
    import pysqlsync.model.data_types as T

    if isinstance(t, T.SqlIntegerType):
        bits = 8 * t.width
        lo, hi = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if t.signed else (0, 2**bits - 1)
        if t.minimum is not None:
            lo = max(lo, t.minimum)
        if t.maximum is not None:
            hi = min(hi, t.maximum)
        return "int", (-lo, hi)
    if isinstance(t, T.SqlRealType):
        return "float", (24,)
    if isinstance(t, T.SqlDoubleType):
        return "float", (53,)
    if isinstance(t, T.SqlFloatType):
        return "float", (53 if t.precision is None or t.precision > 24 else 24,)
    if isinstance(t, (T.SqlFixedCharacterType, T.SqlVariableCharacterType)):
        wide = getattr(t, "encoding", None) is not None
        return "text", (INF if t.limit is None else t.limit, int(isinstance(t, T.SqlVariableCharacterType)), int(wide))
    if isinstance(t, (T.SqlFixedBinaryType, T.SqlVariableBinaryType)):
        return "binary", (INF if t.storage is None else t.storage, int(isinstance(t, T.SqlVariableBinaryType)))
    return repr(t), ()


def covers(result, operand):
    (k, r), (j, o) = holds(result), holds(operand)
    return k == j and all(x >= y for x, y in zip(r, o))


LENGTHS = st.one_of(st.sampled_from([1, 2, 16, 255, 256, 4000, 4001, 8000, 16383, 16384, 65535, 65536]), st.integers(1, 2000))


@st.composite
def type_cases(draw):
    dialect = draw(st.sampled_from(DIALECTS))
    kind = draw(st.sampled_from(["int", "int", "float", "text", "text", "binary", "mixed"]))
    wide = draw(st.booleans()) if dialect == "mssql" else False
    ints = st.tuples(st.just("int"), st.sampled_from([1, 2, 4, 8]), st.sampled_from([True, True, False]), st.sampled_from([None, None, 0, -5, 17]), st.sampled_from([None, None, 20, 100]))
    floats = st.sampled_from([("real",), ("double",), ("float", None), ("float", 20), ("float", 40)]) if dialect != "delta" else st.sampled_from([("real",), ("double",)])
    texts = st.one_of(st.tuples(st.just("char"), LENGTHS), st.tuples(st.just("varchar"), st.one_of(st.none(), LENGTHS), st.just(wide)))
    if wide:
        texts = st.tuples(st.just("varchar"), st.one_of(st.none(), LENGTHS), st.just(wide))
    binaries = st.one_of(st.tuples(st.just("binary"), LENGTHS), st.tuples(st.just("varbinary"), st.one_of(st.none(), LENGTHS)))
    others = st.tuples(st.just("other"), st.sampled_from(["uuid", "boolean", "date", "timestamp", "decimal", "json", "interval"]))
    of_kind = {"int": ints, "float": floats, "text": texts, "binary": binaries, "mixed": st.one_of(ints, floats, texts, binaries, others)}[kind]
    types = draw(st.lists(of_kind, min_size=1, max_size=4))
    return {"dialect": dialect, "types": [list(t) for t in types]}


def groupings(n):
    "All ways to combine a sequence of operands two (or one, or all) at a time, as nested tuples of positions."

    def trees(lo, hi):
        if hi - lo == 1:
            yield lo
            return
        for mid in range(lo + 1, hi):
            for x in trees(lo, mid):
                for y in trees(mid, hi):
                    yield (x, y)

    yield from trees(0, n)


def outcome(f):
    "The common type, or None if there is none."
    from pysqlsync.model.data_types import CompatibilityError

    try:
        return f()
    except CompatibilityError:
        return None


def run_types(case):
    import pysqlsync.model.data_types as T

    def operands():
        return [make(case["dialect"], d) for d in case["types"]]

    n = len(case["types"])
    first = outcome(lambda: T.compatible_type(operands()))
    shown = ", ".join(repr(t) for t in operands())
    for order in itertools.permutations(range(n)):
        types = operands()
        r = outcome(lambda: T.compatible_type([types[i] for i in order]))
        check(types == operands(), lambda: f"combining changes an operand of {shown}")
        check(type(r) is type(first) and r == first, lambda: f"{shown} combine to {first!r}, but in order {order} to {r!r}")
    for tree in groupings(n):

        def join(x):
            return T.compatible_type([join(y) for y in x]) if isinstance(x, tuple) else make(case["dialect"], case["types"][x])

        r = outcome(lambda: join(tree))
        check(type(r) is type(first) and r == first, lambda: f"{shown} combine to {first!r}, but grouped as {tree} to {r!r}")
    for t, u in zip(operands(), operands()):
        r = outcome(lambda: T.compatible_type([t, u]))
        check(type(r) is type(t) and r == t, lambda: f"{t!r} combined with itself is {r!r}")
    kinds = {holds(t)[0] for t in operands()}
    if first is not None:
        for t in operands():
            check(covers(first, t), lambda: f"{shown} combine to {first!r}, which cannot hold all values of {t!r}")
        check(type(first) in {type(t) for t in operands()}, lambda: f"{shown} combine to {first!r}, which is not a type of the dialect")
    else:
        # types that have an obvious common type are not reported as incompatible
        check(kinds not in ({"text"}, {"binary"}), lambda: f"{shown} are reported as incompatible")
        if kinds == {"int"}:
            lo, hi = (max(x) for x in zip(*(holds(t)[1] for t in operands())))
            check(hi >= 2**63 or lo > 2**63 or not all(t.signed for t in operands()), lambda: f"{shown} are reported as incompatible")
    distinct = {repr(t) for t in operands()}
    return Result(len(distinct) > 1 and first is not None, [case["dialect"], *sorted(k if k in ("int", "float", "text", "binary") else "other" for k in kinds), "common" if first is not None else "none"])


# ------------------------------------------------------------------------------------------------------------ unions

INTS = {
    "int": (-(2**63), 2**63 - 1),
    "int8": (-128, 127),
    "int16": (-(2**15), 2**15 - 1),
    "int32": (-(2**31), 2**31 - 1),
    "int64": (-(2**63), 2**63 - 1),
    "uint8": (0, 255),
    "uint16": (0, 2**16 - 1),
    "uint32": (0, 2**32 - 1),
}
MEMBER = {
    **{k: k for k in INTS},
    "float": "float",
    "float32": "float32",
    "float64": "float64",
    "str": "str",
    "bool": "bool",
    "date": "datetime.date",
    "uuid": "uuid.UUID",
    "ipv4": "ipaddress.IPv4Address",
    "ipv6": "ipaddress.IPv6Address",
}


def member(d):
    k = d[0]
    if k == "range":
        return f"Annotated[int, IntegerRange({d[1]}, {d[2]})]"
    if k == "storage":
        return f"Annotated[int, Signed({d[2]}), Storage({d[1]})]"
    if k == "max":
        return f"Annotated[str, MaxLength({d[1]})]"
    if k == "literal":
        return f"Literal[{', '.join(map(repr, d[1]))}]"
    return MEMBER[k]


@st.composite
def union_cases(draw):
    dialect = draw(st.sampled_from([d for d in DIALECTS if d != "ansi"]))
    ints = st.one_of(
        st.sampled_from([[k] for k in INTS]),
        st.tuples(st.just("range"), st.integers(-1000, 0), st.integers(1, 10**9)).map(list),
        st.tuples(st.just("storage"), st.sampled_from([1, 2, 4, 8]), st.booleans()).filter(lambda x: x[1:] != (8, False)).map(list),
    )
    texts = st.one_of(
        st.just(["str"]),
        st.tuples(st.just("max"), st.integers(1, 300)).map(list),
        st.lists(st.text("abcdef", min_size=1, max_size=12), min_size=1, max_size=3, unique=True).map(lambda x: ["literal", x]),
    )
    floats = st.sampled_from([["float"], ["float32"], ["float64"]])
    odd = st.sampled_from([["bool"], ["date"], ["uuid"]])
    addresses = st.sampled_from([["ipv4"], ["ipv6"]])
    kind = draw(st.sampled_from(["int", "int", "text", "text", "float", "address", "mixed"]))
    of_kind = {"int": ints, "text": texts, "float": floats, "address": addresses, "mixed": st.one_of(ints, texts, floats, odd)}[kind]
    members = draw(st.lists(of_kind, min_size=2, max_size=4, unique_by=repr))
    return {"dialect": dialect, "members": members, "opt": draw(st.booleans()), "nested": draw(st.booleans())}


SOURCE = """
import datetime, ipaddress, uuid
from dataclasses import dataclass
from typing import *
from strong_typing.auxiliary import *
from pysqlsync.model.key_types import PrimaryKey

__ALL__ = ["T"]

@dataclass
class T:
    id: PrimaryKey[int]
    value: {annotation}
"""


def column_type(dialect, annotation):
    "Type of the column for a field, or None if there is none for the union."
    import sys
    import types

    from pysqlsync.base import GeneratorOptions
    from pysqlsync.factory import get_dialect

    name = "vm_union"
    module = types.ModuleType(name)
    sys.modules[name] = module
    try:
        exec(compile(SOURCE.format(annotation=annotation), name, "exec"), module.__dict__)
        generator = get_dialect(dialect).create_generator(GeneratorOptions(namespaces={module: None}))
        try:
            generator.create(tables=[module.T])
        except TypeError as e:
            chain = [e, e.__cause__]
            if any("inconsistent union data types" in str(x) for x in chain):
                return None
            raise
        table = next(t for ns in generator.state.namespaces.values() for t in ns.tables.values())
        return next(c for c in table.columns.values() if c.name.local_id == "value").data_type
    finally:
        del sys.modules[name]


def run_unions(case):
    import pysqlsync.model.data_types as T

    dialect, members = case["dialect"], case["members"]

    def annotation(ms):
        ms = [member(m) for m in ms]
        if case["nested"] and len(ms) > 2:
            e = f"Union[Union[{', '.join(ms[:2])}], {', '.join(ms[2:])}]"
        else:
            e = f"Union[{', '.join(ms)}]"
        return f"Optional[{e}]" if case["opt"] else e

    first = column_type(dialect, annotation(members))
    shown = annotation(members)
    for order in itertools.permutations(members):
        r = column_type(dialect, annotation(order))
        check(type(r) is type(first) and r == first, lambda: f"{dialect}: {shown} becomes a column of type {first!r}, but {annotation(order)} one of {r!r}")
    kinds = {"int" if m[0] in INTS or m[0] in ("range", "storage") else "text" if m[0] in ("str", "max", "literal") else "float" if m[0].startswith("float") else "address" if m[0].startswith("ip") else m[0] for m in members}
    if first is None:
        check(len(kinds) > 1 or kinds == {"float"}, lambda: f"{dialect}: {shown} is reported as incompatible")
        return Result(False, [dialect, "none"])
    check(len(kinds) == 1, lambda: f"{dialect}: {shown} becomes a column of type {first!r}")
    for m in members:
        alone = column_type(dialect, member(m))
        check(covers(first, alone), lambda: f"{dialect}: {shown} becomes a column of type {first!r}, which cannot hold all values of {alone!r}")
        if kinds == {"int"}:
            lo, hi = INTS[m[0]] if m[0] in INTS else (m[1], m[2]) if m[0] == "range" else (-(2 ** (8 * m[1] - 1)), 2 ** (8 * m[1] - 1) - 1) if m[2] else (0, 2 ** (8 * m[1]) - 1)
            k, (a, z) = holds(first)
            check(k == "int" and -a <= lo and hi <= z, lambda: f"{dialect}: {shown} becomes a column of type {first!r}, which cannot hold {lo} to {hi}")
        if kinds == {"text"}:
            n = 0 if m[0] == "str" else m[1] if m[0] == "max" else max(map(len, m[1]))
            k, limits = holds(first)
            check(k == "text" and limits[0] >= n, lambda: f"{dialect}: {shown} becomes a column of type {first!r}, which cannot hold text of length {n}")
    check_equal(str(first), str(column_type(dialect, annotation(list(reversed(members))))), "SQL type")
    return Result(True, [dialect, *sorted(kinds)])


PARTS = [
    Part("types", type_cases, run_types, quick=6000, thorough=200000),
    Part("unions", union_cases, run_unions, quick=700, thorough=20000),
]
