"""
Loading data: tables with columns of every kind, values of every kind of column, and how a stored value denotes them.

A *semantic value* of a type descriptor is what the Python field means: a plain value for simple types, the member's
value for enumerations, the key for references, a dictionary for structures, a list for lists and sets. It is turned
into the form an object field holds or the form a row record holds; ``denotes`` reads back what arrived in the database
by the convention of the column type, without the code under test.
"""

import datetime
import decimal
import ipaddress
import json
import math
import typing
import uuid

from hypothesis import strategies as st

from pysqlsync.model.key_types import DEFAULT

import refdb
import schema as S
from codec import dec, enc, same
from drivers import Backend, make_context, run_async
from vh import HarnessError

UTC = datetime.timezone.utc


# -------------------------------------------------------------------------------------------------------------- store


class Store(Backend):
    "A driver back-end that executes what it is handed on the reference database."

    def __init__(self, dialect):
        super().__init__()
        self.dialect = dialect
        self.db = refdb.RefDB(dialect)
        self.db.relax_df_names = True

    def on_execute(self, sql):
        self.db.execute(sql)

    def on_many(self, sql, rows):
        for row in rows:
            self.db.execute(sql, params=list(row))

    def on_copy(self, schema, table, columns, rows):
        key = (schema or "", table)
        for row in rows:
            self.db._do_insert(key, dict(zip(columns, row)))

    def on_stream(self, sql, data):
        redshift_copy(self.db, sql, data)

    def on_query(self, sql):
        return self.db.execute(sql)


def redshift_copy(db, sql, data):
    """
    Loads rows from delimited text as documented for COPY of Amazon Redshift: fields are separated by a pipe character
    unless option DELIMITER says otherwise, `\\N` stands for NULL unless option NULL AS says otherwise, a backslash
    escapes the next character only with option ESCAPE, and binary data are hexadecimal digits.
    """

    from sqllex import SqlSyntaxError, tokenize

    toks = tokenize(sql, "postgresql")
    if toks and toks[-1] == ("op", ";"):
        toks = toks[:-1]
    p = refdb.P(toks, db)
    if not p.w("COPY"):
        raise SqlSyntaxError(f"expected COPY: {sql}")
    key = p.qid()
    columns = p.idlist()
    if not p.w("FROM", "STDIN"):
        raise SqlSyntaxError(f"expected FROM STDIN: {sql}")
    delimiter, null, escape = "|", "\\N", False
    while not p.done():
        if p.w("ESCAPE"):
            escape = True
        elif p.w("DELIMITER"):
            p.w("AS")
            delimiter = p.peek()[1]
            p.i += 1
        elif p.w("NULL"):
            p.w("AS")
            null = p.peek()[1]
            p.i += 1
        else:
            raise SqlSyntaxError(f"unsupported option of COPY: {sql}")
    table = db.table(key)
    for name in columns:
        if name not in table.cols:
            raise refdb.DBError(f"column does not exist: {name}")
    text = data.decode("utf-8")
    lines, fields, field, raw, i = [], [], "", "", 0
    while i < len(text):
        c = text[i]
        if c == "\\" and escape and i + 1 < len(text):
            field, raw, i = field + text[i + 1], raw + text[i : i + 2], i + 2
            continue
        if c == "\r":
            # a line feed, a carriage return or both end a row
            raise refdb.DBError(f"carriage return within a field: {data!r}")
        if c in (delimiter, "\n"):
            fields.append(None if raw == null else field)
            field = raw = ""
            if c == "\n":
                lines.append(fields)
                fields = []
        else:
            field, raw = field + c, raw + c
        i += 1
    if field or raw or fields:
        fields.append(None if raw == null else field)
        lines.append(fields)
    for fields in lines:
        if len(fields) != len(columns):
            raise refdb.DBError(f"{len(fields)} fields for {len(columns)} columns: {fields}")
        row = {n: None if x is None else redshift_value(table.cols[n].type, x) for n, x in zip(columns, fields)}
        db._do_insert(key, row)


def redshift_value(type_tokens, text):
    base = " ".join(v for k, v in type_tokens if k == "word")
    try:
        if base.startswith(("VARCHAR", "CHAR", "TEXT")):
            return text
        if base == "BOOLEAN":
            return {"t": True, "true": True, "y": True, "yes": True, "1": True, "f": False, "false": False, "n": False, "no": False, "0": False}[text.lower()]
        if base in ("SMALLINT", "INTEGER", "INT", "BIGINT"):
            return int(text)
        if base in ("REAL", "DOUBLE PRECISION", "FLOAT"):
            return float(text)
        if base in ("DECIMAL", "NUMERIC"):
            return decimal.Decimal(text)
        if base == "VARBYTE":
            return bytes.fromhex(text)
        if base == "DATE":
            return datetime.date.fromisoformat(text)
        if base.startswith("TIMESTAMP"):
            return datetime.datetime.fromisoformat(text)
        if base.startswith("TIME"):
            return datetime.time.fromisoformat(text)
    except (ValueError, KeyError, ArithmeticError) as e:
        raise refdb.DBError(f"invalid value for {base}: {text!r}") from e
    raise HarnessError(f"no conversion to {base}")


# ------------------------------------------------------------------------------------------------------------- tables

KEYS = {
    "T0": (["int"], [1, 2, 3]),
    "T1": (["uuid"], [uuid.UUID(int=i) for i in (1, 2, 3)]),
    "T2": (["max", 16], ["k1", "k2", "red"]),
}
MAIN = "Main"


def specs_of_types(dialect, opts):
    "Type descriptors of fields by kind."
    em, sm, am = S.effective(opts)
    out = {
        "simple": S.simple_types(dialect),
        "number": st.sampled_from([["bool"], ["int"], ["int16"], ["uint32"], ["float"], ["float32"], ["decimal", 10, 2], ["range", -5, 5]]),
        "text": st.sampled_from([["str"], ["max", 8], ["max", 64], ["litunion", ["unknown"], 20], ["literal", ["one", "three"]]]),
        "moment": st.sampled_from([["datetime"], ["datetime", 3], ["date"], ["time"], ["time", 3]]),
        "binary": st.sampled_from([["uuid"], ["ipv4"], ["ipv6"], ["ip"]]),
        "enum": st.sampled_from([["enum", 0, "Color"], ["enum", 0, "Color"], ["enum", 0, "Level"]]),
        "extenum": st.just(["extenum", 0, "Country"]),
        "struct": st.sampled_from([["struct", 0, "Point"], ["struct", 0, "Place"]]),
    }
    if opts.get("foreign_constraints", True):
        out["ref"] = st.sampled_from([["ref", 0, "T0"], ["ref", 0, "T1"], ["ref", 0, "T2"]])
    else:
        out["ref"] = st.sampled_from([["ref", 0, "T0"], ["ref", 0, "T1"]])
    if dialect == "postgresql":
        out["moment"] = st.one_of(out["moment"], st.just(["timedelta"]))
    if dialect == "oracle":
        out["binary"] = st.one_of(out["binary"], st.just(["bytes"]))
    if am != "RELATION":
        lists = [["list", ["int"]], ["list", ["str"]], ["set", ["int"]], ["list", ["uuid"]], ["list", ["struct", 0, "Point"]], ["list", ["float"]]]
        if am == "JSON" or em in ("TYPE", "CHECK"):
            lists += [["list", ["enum", 0, "Color"]], ["set", ["enum", 0, "Color"]]]
        out["list"] = st.sampled_from(lists)
    return out


FIELDS = ["name", "order", "value", "userName", "größe", "select", "x1", "group", "flag", "note"]


@st.composite
def tables(draw, opts, keys=("int", "identity", "uuid", "text"), kinds=None, min_fields=1, max_fields=5, defaults=True, unique=True, second=False):
    "A schema with a main entity and the classes that it refers to."
    kind = draw(st.sampled_from(list(keys)))
    key = {
        "int": {"name": "id", "type": ["int"], "role": "pk"},
        "identity": {"name": "id", "type": ["int"], "role": "id"},
        "uuid": {"name": "key", "type": ["uuid"], "role": "pk"},
        "text": {"name": "Id", "type": ["max", 32], "role": "pk"},
        "date": {"name": "day", "type": ["date"], "role": "pk"},
        "ipv4": {"name": "addr", "type": ["ipv4"], "role": "pk"},
    }[kind]
    by_kind = specs_of_types(opts["dialect"], opts)
    strategies = [v for k, v in by_kind.items() if kinds is None or k in kinds]
    fields = []
    names = draw(st.lists(st.sampled_from(FIELDS), min_size=min_fields, max_size=max_fields, unique=True))
    for name in names:
        f = {"name": name, "type": draw(draw(st.sampled_from(strategies)))}
        if draw(st.booleans()):
            f["opt"] = True
        if unique and f["type"][0] in ("int", "max", "uuid") and draw(st.integers(0, 3)) == 0:
            f["unique"] = True
        if defaults and not f.get("unique") and draw(st.integers(0, 3)) == 0:
            # Color and Level have at least two members, Country has one
            d = ["member", draw(st.sampled_from(["m0", "m0" if f["type"][0] == "extenum" else "m1"]))] if f["type"][0] in ("enum", "extenum") else S.default_for(draw, f["type"])
            if d is not None:
                f["default"] = d
        fields.append(f)
    at = draw(st.sampled_from([0, 0, len(fields)]))
    plain = [f for f in fields if f.get("default") is None]
    fields = S.order_fields(plain[:at] + [key] + plain[at:] + [f for f in fields if f.get("default") is not None])
    color = draw(S.enum_def("Color", "str"))
    level = draw(S.enum_def("Level", "int"))
    ents = [
        {"name": "T0", "fields": [{"name": "id", "type": KEYS["T0"][0], "role": "pk"}, {"name": "data", "type": ["str"], "opt": True}]},
        {"name": "T1", "fields": [{"name": "id", "type": KEYS["T1"][0], "role": "pk"}, {"name": "data", "type": ["int"], "opt": True}]},
        # looks like a lookup table, but has a key of its own
        {"name": "T2", "fields": [{"name": "id", "type": KEYS["T2"][0], "role": "pk"}, {"name": "value", "type": ["max", 16], "unique": True}]},
        {"name": MAIN, "fields": fields},
    ]
    if second:
        ents.append(
            {
                "name": "Other",
                "fields": [
                    {"name": "id", "type": ["int"], "role": "id" if draw(st.booleans()) else "pk"},
                    {"name": "color", "type": ["enum", 0, "Color"], "opt": True},
                    {"name": "country", "type": ["extenum", 0, "Country"], "opt": True},
                ],
            }
        )
    mod = {
        "ns": draw(st.sampled_from([None, "app", "core"])),
        "enums": [color, level, {"name": "Country", "members": [["m0", draw(st.sampled_from(S.LABELS))]]}],
        "structs": [
            {"name": "Point", "fields": [{"name": "x", "type": ["int"]}, {"name": "label", "type": ["str"], "opt": True}]},
            {"name": "Place", "fields": [{"name": "at", "type": ["struct", 0, "Point"]}, {"name": "code", "type": ["uuid"]}, {"name": "order", "type": ["bool"]}]},
        ],
        "entities": ents,
    }
    return {"modules": [mod]}


def fields_of(spec, name=MAIN):
    return next(e for m in spec["modules"] for e in m["entities"] if e["name"] == name)["fields"]


def key_field(fields):
    return next(f for f in fields if f.get("role"))


def default_value(f, spec):
    "The default that the class has for a field."
    d = f["default"]
    if S.is_member(d):
        return S.member_value(spec, f)
    if isinstance(d, list):
        return {"float": float, "decimal": decimal.Decimal, "datetime": datetime.datetime.fromisoformat}[d[0]](d[1])
    return d


def omittable(f, opts):
    "Whether a row may leave out a column."
    if S.is_member(f.get("default")) and not f.get("opt"):
        # entries of lookup tables are no defaults
        return f["type"][0] == "enum" and S.effective(opts)[0] != "RELATION"
    return bool(f.get("opt") or f.get("default") is not None)


def table_key(spec, opts, name=MAIN):
    ns = spec["modules"][0]["ns"]
    if opts["dialect"] in S.PREFIXED:
        return ("", f"{ns}__{name}" if ns else name)
    return (ns or "", name)


# ------------------------------------------------------------------------------------------------------------- values

WORDS = ["\\N", "\\.", "\\", "NULL", "null", " ", "  x ", "\t", "\n", "\r", "a\r\nb", "''", '""', "|", "{}", "0", "None", "true", "%s", ":1", "?", "$1"]
TEXT = st.one_of(st.text(st.one_of(st.sampled_from("ab'\"\\%|;,\n\t äß€"), st.characters(exclude_categories=("Cs",), exclude_characters="\x00")), max_size=8), st.sampled_from(WORDS))


def shorten(s, n):
    "The unit of a text length limit is a byte in some dialects."
    while len(s.encode()) > n:
        s = s[:-1]
    return s


INTS = {
    "int": (-(2**63), 2**63 - 1),
    "int8": (-128, 127),
    "int16": (-(2**15), 2**15 - 1),
    "int32": (-(2**31), 2**31 - 1),
    "int64": (-(2**63), 2**63 - 1),
    "uint8": (0, 255),
    "uint16": (0, 2**16 - 1),
    "uint32": (0, 2**32 - 1),
    "uint64": (0, 2**63 - 1),
}


def values(t, spec, opts):
    "Semantic values of a type descriptor."
    k = t[0]
    if k == "bool":
        return st.booleans()
    if k in INTS:
        lo, hi = INTS[k]
        return st.one_of(st.integers(max(lo, -3), 3), st.integers(lo, hi), st.sampled_from([lo, hi]))
    if k == "range":
        return st.integers(t[1], t[2])
    if k == "float32":
        return st.floats(width=32, allow_nan=False, allow_infinity=False)
    if k in ("float", "float64"):
        return st.floats(allow_nan=False, allow_infinity=False)
    if k == "str":
        return TEXT
    if k == "max":
        return TEXT.map(lambda s: shorten(s, t[1]))
    if k == "decimal":
        # `decimal` on its own has no decimal digits in these dialects
        p, s = (t[1:] + [0])[:2] if len(t) > 1 else (10, 0 if opts["dialect"] in ("mysql", "mssql") else 3)
        return st.integers(-(10**p) + 1, 10**p - 1).map(lambda n: decimal.Decimal(n).scaleb(-s))
    if k == "datetime":
        scale = 10 ** (6 - (t[1] if len(t) > 1 else 6))
        naive = st.datetimes(datetime.datetime(1970, 1, 2), datetime.datetime(2100, 1, 1)).map(lambda v: v.replace(microsecond=v.microsecond // scale * scale))
        return st.one_of(naive, naive.map(lambda v: v.replace(tzinfo=UTC)))
    if k == "date":
        return st.dates()
    if k == "time":
        scale = 10 ** (6 - (t[1] if len(t) > 1 else 6))
        naive = st.times().map(lambda v: v.replace(microsecond=v.microsecond // scale * scale))
        return st.one_of(naive, naive.map(lambda v: v.replace(tzinfo=UTC)))
    if k == "timedelta":
        return st.timedeltas(datetime.timedelta(-1000), datetime.timedelta(1000))
    if k == "uuid":
        return st.uuids()
    if k == "bytes":
        return st.binary(max_size=8)
    if k == "ipv4":
        return st.ip_addresses(v=4)
    if k == "ipv6":
        return st.ip_addresses(v=6)
    if k == "ip":
        return st.ip_addresses()
    if k == "literal":
        return st.sampled_from(t[1])
    if k == "litunion":
        return st.one_of(st.sampled_from(t[1]), TEXT.map(lambda s: shorten(s, t[2] or 20)))
    if k == "enum":
        return st.sampled_from([m[1] for m in enum_members(spec, t)])
    if k == "extenum":
        return st.one_of(st.just(enum_members(spec, t)[0][1]), st.sampled_from(["red", "green", "O'Reilly", "", "ÄÖ", "1"]), TEXT)
    if k == "struct":
        fields = next(s for s in spec["modules"][t[1]]["structs"] if s["name"] == t[2])["fields"]
        return st.fixed_dictionaries({f["name"]: st.one_of(st.none(), values(f["type"], spec, opts)) if f.get("opt") else values(f["type"], spec, opts) for f in fields})
    if k == "ref":
        return st.sampled_from(KEYS[t[2]][1])
    if k == "list":
        return st.lists(values(t[1], spec, opts), max_size=3)
    if k == "set":
        return st.lists(values(t[1], spec, opts), max_size=3, unique=True)
    raise HarnessError(f"no values for {t}")


def enum_members(spec, t):
    return next(e for e in spec["modules"][t[1]]["enums"] if e["name"] == t[2])["members"]


def key_value(t, i):
    "The i-th distinct value of a key or unique column."
    k = t[0]
    if k in INTS:
        return 0 if i == 2 else i
    if k == "uuid":
        return uuid.UUID(int=(i + 1) * 0x1234567890ABCDEF0123456789ABCDEF % (1 << 128))
    if k == "max":
        return shorten(f"{'%äk' if i % 2 else 'k'}{i}", t[1]) if t[1] >= 4 else chr(33 + i)[: t[1]]
    if k == "date":
        return datetime.date(2000, 1, 1) + datetime.timedelta(i)
    if k == "ipv4":
        return ipaddress.IPv4Address(0x0A000001 + i * 257)
    raise HarnessError(f"no keys for {t}")


def to_object(build, spec, t, v):
    "The value of an object field."
    if v is None:
        return None
    k = t[0]
    if k == "enum":
        return build.cls(t[1], t[2])(v)
    if k == "extenum":
        members = [m[1] for m in enum_members(spec, t)]
        return build.cls(t[1], t[2])(v) if v in members else v
    if k == "struct":
        fields = next(s for s in spec["modules"][t[1]]["structs"] if s["name"] == t[2])["fields"]
        return build.cls(t[1], t[2])(**{f["name"]: to_object(build, spec, f["type"], v[f["name"]]) for f in fields})
    if k in ("list", "set"):
        return {"list": list, "set": set}[k](to_object(build, spec, t[1], x) for x in v)
    return v


def json_form(spec, t, v):
    if v is None:
        return None
    k = t[0]
    if k == "struct":
        fields = next(s for s in spec["modules"][t[1]]["structs"] if s["name"] == t[2])["fields"]
        return {f["name"]: json_form(spec, f["type"], v[f["name"]]) for f in fields}
    if k in ("list", "set"):
        return [json_form(spec, t[1], x) for x in v]
    if k == "uuid":
        return str(v)
    return v


def is_json(opts, t):
    em, sm, am = S.effective(opts)
    return t[0] == "struct" and sm == "JSON" or t[0] in ("list", "set") and am == "JSON"


ROW_TYPES = {
    **{k: int for k in INTS},
    "range": int,
    "bool": bool,
    "float": float,
    "float32": float,
    "float64": float,
    "str": str,
    "max": str,
    "literal": str,
    "litunion": str,
    "decimal": decimal.Decimal,
    "datetime": datetime.datetime,
    "date": datetime.date,
    "time": datetime.time,
    "timedelta": datetime.timedelta,
    "uuid": uuid.UUID,
    "bytes": bytes,
    "ipv4": ipaddress.IPv4Address,
    "ipv6": ipaddress.IPv6Address,
    "ip": typing.Union[ipaddress.IPv4Address, ipaddress.IPv6Address],
    "struct": dict,
    "list": list,
    "set": set,
}


def row_type(build, t, members=False):
    if t[0] == "enum" and members:
        return build.cls(t[1], t[2])
    if t[0] in ("enum", "extenum"):
        return str
    if t[0] == "ref":
        return ROW_TYPES[KEYS[t[2]][0][0]]
    return ROW_TYPES[t[0]]


def to_row(build, spec, opts, t, v, members=False):
    "The value of a row item."
    if v is None:
        return None
    k = t[0]
    if k == "enum":
        return build.cls(t[1], t[2])(v) if members else str(v)
    if is_json(opts, t):
        j = json_form(spec, t, v)
        return set(j) if k == "set" else j
    if k in ("list", "set"):
        return {"list": list, "set": set}[k](native_item(spec, opts, t[1], x) for x in v)
    if k == "struct":
        return native_item(spec, opts, t, v)
    return v


def native_item(spec, opts, t, v):
    if v is None:
        return None
    if t[0] == "struct":
        fields = next(s for s in spec["modules"][t[1]]["structs"] if s["name"] == t[2])["fields"]
        return {f["name"]: native_item(spec, opts, f["type"], v[f["name"]]) for f in fields}
    if t[0] == "enum":
        return str(v)
    return v


def native_key(dialect, v):
    "How a key is stored by the convention of the dialect."
    if dialect == "postgresql":
        return v
    if isinstance(v, uuid.UUID):
        return v.bytes
    if isinstance(v, (ipaddress.IPv4Address, ipaddress.IPv6Address)):
        return v.packed
    return v


# --------------------------------------------------------------------------------------------------------- denotation


def naive(v):
    return v.replace(tzinfo=None) if v.tzinfo is not None and not v.utcoffset() else v


def denotes(ctx, t, stored, v):
    "Whether what a column stores denotes the semantic value; `ctx` is a Loader."
    if v is None or stored is None:
        return v is None and stored is None
    k, opts, dialect = t[0], ctx.opts, ctx.opts["dialect"]
    em, sm, am = S.effective(opts)
    if k == "ref":
        return denotes(ctx, KEYS[t[2]][0], stored, v)
    if k == "bool":
        return isinstance(stored, (bool, int)) and bool(stored) == v and stored in (0, 1)
    if k in INTS or k == "range":
        return type(stored) is int and stored == v
    if k in ("float", "float32", "float64"):
        return isinstance(stored, float) and (stored == v and math.copysign(1, stored) == math.copysign(1, v))
    if k in ("str", "max", "literal", "litunion"):
        return type(stored) is str and stored == v
    if k == "decimal":
        return isinstance(stored, (decimal.Decimal, int)) and not isinstance(stored, bool) and stored == v
    if k == "datetime":
        return isinstance(stored, datetime.datetime) and naive(stored) == naive(v)
    if k == "date":
        return type(stored) is datetime.date and stored == v
    if k == "time":
        if dialect == "oracle":
            return isinstance(stored, datetime.timedelta) and stored == datetime.datetime.combine(datetime.date.min, naive(v)) - datetime.datetime.min
        return isinstance(stored, datetime.time) and naive(stored) == naive(v)
    if k == "timedelta":
        return isinstance(stored, datetime.timedelta) and stored == v
    if k == "bytes":
        return isinstance(stored, bytes) and stored == v
    if k == "uuid":
        if dialect == "postgresql":
            return isinstance(stored, uuid.UUID) and stored == v
        return isinstance(stored, bytes) and stored == v.bytes
    if k in ("ipv4", "ipv6", "ip"):
        if dialect == "postgresql":
            return type(stored) is type(v) and stored == v
        return isinstance(stored, bytes) and stored == v.packed
    if k == "extenum" or k == "enum" and em == "RELATION":
        return type(stored) is int and ctx.label(t, stored) == str(v)
    if k == "enum":
        if em == "CHECK" and isinstance(v, int):
            return type(stored) is int and stored == v
        return type(stored) is str and stored == str(v)
    if k in ("struct", "list", "set"):
        if is_json(opts, t):
            if type(stored) is not str:
                return False
            try:
                j = json.loads(stored)
            except ValueError:
                return False
            return json_same(ctx.spec, t, j, json_form(ctx.spec, t, v))
        return native_same(ctx, t, stored, v)
    raise HarnessError(f"no denotation for {t}")


def json_same(spec, t, a, b):
    "An optional member that is null may be left out."
    if t[0] == "struct" and isinstance(b, dict):
        if not isinstance(a, dict) or set(a) - set(b):
            return False
        fields = next(s for s in spec["modules"][t[1]]["structs"] if s["name"] == t[2])["fields"]
        return all(json_same(spec, f["type"], a.get(f["name"]), b[f["name"]]) for f in fields)
    if t[0] == "list" and isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(json_same(spec, t[1], x, y) for x, y in zip(a, b))
    if t[0] == "set" and isinstance(b, list):
        return isinstance(a, list) and sorted(map(repr, a)) == sorted(map(repr, b))
    return same(a, b)


def native_same(ctx, t, stored, v):
    "Arrays and composite values as asyncpg takes them."
    if t[0] == "struct":
        fields = next(s for s in ctx.spec["modules"][t[1]]["structs"] if s["name"] == t[2])["fields"]
        if isinstance(stored, dict):
            if set(stored) - {f["name"] for f in fields}:
                return False
            items = [stored.get(f["name"]) for f in fields]
        elif isinstance(stored, tuple):
            items = list(stored)
            if len(items) != len(fields):
                return False
        else:
            return False
        return all(native_same(ctx, f["type"], x, v[f["name"]]) for f, x in zip(fields, items))
    if t[0] == "list":
        return isinstance(stored, (list, tuple)) and len(stored) == len(v) and all(native_same(ctx, t[1], x, y) for x, y in zip(stored, v))
    if t[0] == "set":
        if not isinstance(stored, (list, tuple, set, frozenset)) or len(stored) != len(v):
            return False
        rest = list(stored)
        for y in v:
            for i, x in enumerate(rest):
                if native_same(ctx, t[1], x, y):
                    del rest[i]
                    break
            else:
                return False
        return True
    return denotes(ctx, t, stored, v)


# ------------------------------------------------------------------------------------------------------------- loader


class Loader:
    "A context on a fake driver whose tables have been created."

    def __init__(self, spec, opts, build, initial=True, store=None):
        self.spec, self.opts, self.build = spec, opts, build
        self.store = store or Store(opts["dialect"])
        self.context = make_context(opts["dialect"], self.store, S.make_options(opts, build))
        run_async(self.context.create_objects(build.entities))
        if initial:
            for name, (t, keys) in KEYS.items():
                for i, k in enumerate(keys):
                    row = {"id": native_key(opts["dialect"], k)}
                    if name == "T2":
                        row["value"] = ["v1", "k1", "v3"][i]
                    self.store.db._do_insert(self.key(name), row)
        self.start = len(self.store.log)

    def key(self, name=MAIN):
        return table_key(self.spec, self.opts, name)

    @property
    def main(self):
        return self.build.cls(0, MAIN)

    def table(self, name=MAIN):
        return self.context.get_table(self.build.cls(0, name))

    def rows(self, name=MAIN):
        return self.store.db.tables[self.key(name)].rows

    def label(self, t, key):
        rows = [r for r in self.rows(t[2]) if r["id"] == key]
        return rows[0]["value"] if len(rows) == 1 else None

    def object(self, fields, values, name=MAIN):
        "`values` maps field names to semantic values; an identity field may be left out."
        cls = self.build.cls(0, name)
        for f in fields:
            if f.get("role") == "id" and f["name"] not in values:
                values = {**values, f["name"]: DEFAULT}
        return cls(**{f["name"]: values[f["name"]] if f.get("role") else to_object(self.build, self.spec, f["type"], values[f["name"]]) for f in fields if f["name"] in values})


def omission(draw):
    "Positions in a record that are to be left out of the statement."
    return draw(st.sampled_from([None, None, ["name", 0], ["type", 0], ["both", 1], ["name", 9], ["type", 2]]))


def with_omission(op, names, types, items):
    "Adds a position to records that is not meant for any column."
    if not op.get("omit"):
        return tuple(names), tuple(types), items
    by, at = op["omit"]
    names, types = list(names), list(types)
    at = min(at, len(names))
    names.insert(at, "nosuch" if by == "type" else "")
    types.insert(at, str if by == "name" else type(None))
    return tuple(names), tuple(types), [(*x[:at], "left out", *x[at:]) for x in items]


class Source:
    "A record source that counts how often it is iterated; kinds: list, tuple, generator, iterator, async."

    def __init__(self, kind, items):
        self.items = items
        self.started = 0
        self.kind = kind

    def get(self):
        if self.kind == "list":
            return list(self.items)
        if self.kind == "tuple":
            return tuple(self.items)
        if self.kind == "generator":
            return self._gen()
        if self.kind == "iterable":
            return self
        if self.kind == "async":
            return self._agen()
        raise HarnessError(self.kind)

    def __iter__(self):
        return self._gen()

    def _gen(self):
        self.started += 1
        yield from self.items

    async def _agen(self):
        self.started += 1
        for item in self.items:
            yield item


SOURCES = ("list", "tuple", "generator", "iterable", "async")
