"""
What a column of a given type can hold, as documented by the vendors.

Works on the type as written in SQL, never on the type objects of the code under test.
"""

import datetime
import decimal
import ipaddress
import math
import re
import uuid

INT_RANGE = {1: (-(2**7), 2**7 - 1), 2: (-(2**15), 2**15 - 1), 4: (-(2**31), 2**31 - 1), 8: (-(2**63), 2**63 - 1)}


class Capacity:
    def __init__(self, kind, **attr):
        self.kind = kind
        self.__dict__.update(attr)

    def __repr__(self):
        return f"<{self.kind} {({k: v for k, v in vars(self).items() if k != 'kind'})}>"


def _int(width, unsigned=False):
    lo, hi = INT_RANGE[width]
    return Capacity("int", lo=0 if unsigned else lo, hi=2 * hi + 1 if unsigned else hi)


class BadType(Exception):
    "The database has no such type, or rejects its parameters."


def _limited(n, most, what):
    if not 1 <= n <= most:
        raise BadType(f"{what}: length {n} is not between 1 and {most}")
    return n


def parse(text, dialect):
    "Capacity of a column type as written in SQL."
    t = re.sub(r"\s*([(),])\s*", r"\1", text.strip()).replace(",", ", ")
    t = re.sub(r"\s+", " ", t)
    low = t.lower()
    m = re.fullmatch(r"(.*?)(?:\(([\d, ]+|max)\))?((?: [a-z ]+)?)", low)
    name, args, tail = m.group(1).strip(), m.group(2), m.group(3).strip()
    args = args if args in (None, "max") else [int(x) for x in args.split(",")]
    n = args[0] if isinstance(args, list) else None

    if low.endswith(" array") or (dialect == "delta" and low.startswith("array<")):
        inner = t[:-6] if low.endswith(" array") else t[6:-1]
        return Capacity("array", item=parse(inner, dialect))

    if dialect == "delta" and low.startswith("struct"):
        return Capacity("struct", text=t)

    full = name + (" " + tail if tail else "")
    if dialect == "postgresql":
        simple = {"boolean": Capacity("bool"), "smallint": _int(2), "integer": _int(4), "bigint": _int(8), "real": Capacity("float", bits=24),
                  "double precision": Capacity("float", bits=53), "text": Capacity("text", n=None), "date": Capacity("date"), "uuid": Capacity("uuid"),
                  "interval": Capacity("interval", digits=6, days=None), "json": Capacity("json"), "jsonb": Capacity("json"), "inet": Capacity("inet"),
                  "bytea": Capacity("binary", n=None)}
        if args is None and full in simple:
            return simple[full]
        if name in ("decimal", "numeric"):
            return _decimal(args, None, 1000)
        if name == "float":
            return _float(n)
        if name == "varchar":
            return Capacity("text", n=_limited(n, 10485760, name))
        if name == "char":
            return Capacity("char", n=_limited(1 if n is None else n, 10485760, name))
        if name in ("timestamp", "time") and tail in ("", "with time zone", "without time zone"):
            return Capacity(name, digits=_limited(6 if n is None else n + 1, 7, name) - (n is not None), zone=tail == "with time zone")
    elif dialect == "mysql":
        simple = {"tinyint": _int(1), "smallint": _int(2), "integer": _int(4), "int": _int(4), "bigint": _int(8), "real": Capacity("float", bits=53),
                  "float": Capacity("float", bits=24), "double": Capacity("float", bits=53), "double precision": Capacity("float", bits=53), "date": Capacity("date"), "json": Capacity("json"),
                  "tinytext": Capacity("text", n=255, octets=True), "text": Capacity("text", n=65535, octets=True), "mediumtext": Capacity("text", n=16777215, octets=True), "longtext": Capacity("text", n=2**32 - 1, octets=True),
                  "blob": Capacity("binary", n=65535), "mediumblob": Capacity("binary", n=16777215), "longblob": Capacity("binary", n=2**32 - 1)}
        if args is None and name in ("smallint", "integer", "bigint", "tinyint") and tail == "unsigned":
            return _int({"tinyint": 1, "smallint": 2, "integer": 4, "bigint": 8}[name], True)
        if args is None and full in simple:
            return simple[full]
        if name in ("decimal", "numeric"):
            return _decimal(args, (10, 0), 65)
        if name == "float" and n is not None:
            return _float(n)
        if name == "varchar":
            return Capacity("text", n=_limited(n, 16383, name))  # utf8mb4
        if name == "char":
            return Capacity("char", n=_limited(1 if n is None else n + 1, 256, name) - (n is not None))
        if name == "binary":
            return Capacity("fixed", n=_limited(n or 1, 255, name))
        if name == "varbinary":
            return Capacity("binary", n=_limited(n, 65535, name))
        if name == "datetime" and not tail:
            return Capacity("timestamp", digits=n or 0, zone=False)
        if name == "time" and not tail:
            return Capacity("time", digits=n or 0, zone=False)
        if low.startswith("enum"):
            # as canonicalised by the reference database: no escape character
            return Capacity("enum", values=[v.replace("''", "'") for v in re.findall(r"'((?:[^']|'')*)'", text)])
    elif dialect == "mssql":
        simple = {"bit": Capacity("bool"), "tinyint": Capacity("int", lo=0, hi=255), "smallint": _int(2), "integer": _int(4), "int": _int(4), "bigint": _int(8),
                  "real": Capacity("float", bits=24), "double precision": Capacity("float", bits=53), "float": Capacity("float", bits=53), "date": Capacity("date"),
                  "uniqueidentifier": Capacity("uuid")}
        if args is None and full in simple:
            return simple[full]
        if name in ("decimal", "numeric"):
            return _decimal(args, (18, 0), 38)
        if name == "float":
            return _float(n)
        if name in ("varchar", "nvarchar"):
            if args == "max":
                return Capacity("text", n=2**31 - 1)
            return Capacity("text", n=_limited(n or 1, 8000 if name == "varchar" else 4000, name))
        if name in ("char", "nchar"):
            return Capacity("char", n=_limited(1 if n is None else n, 8000 if name == "char" else 4000, name))
        if name == "binary":
            return Capacity("fixed", n=_limited(n or 1, 8000, name))
        if name == "varbinary":
            return Capacity("binary", n=2**31 - 1 if args == "max" else _limited(n or 1, 8000, name))
        if name == "datetime2":
            return Capacity("timestamp", digits=7 if n is None else n, zone=False)
        if name == "time" and not tail:
            return Capacity("time", digits=7 if n is None else n, zone=False)
    elif dialect == "oracle":
        simple = {"boolean": Capacity("bool"), "real": Capacity("float", bits=63), "binary_float": Capacity("float", bits=24), "binary_double": Capacity("float", bits=53),
                  "double precision": Capacity("float", bits=126), "clob": Capacity("text", n=None), "blob": Capacity("binary", n=None),
                  "date": Capacity("date"), "json": Capacity("json"), "interval day to second": Capacity("interval", digits=6, days=99)}
        if args is None and full in simple:
            return simple[full]
        if full in ("smallint", "integer", "int") and args is None:
            return Capacity("int", lo=-(10**38) + 1, hi=10**38 - 1)
        if name == "number" and args is None:
            return Capacity("int", lo=-(10**38) + 1, hi=10**38 - 1)
        if name == "number":
            return _decimal(args, None, 38)
        if name in ("decimal", "numeric"):
            return _decimal(args, (38, 0), 38)
        if name == "float":
            if n is not None and not 1 <= n <= 126:
                raise BadType(f"float precision {n}")
            return Capacity("float", bits=n or 126)
        if name in ("varchar2", "varchar"):
            return Capacity("text", n=_limited(n, 4000, name), null_empty=True)
        if name == "char":
            return Capacity("char", n=_limited(1 if n is None else n, 2000, name))
        if name == "raw":
            return Capacity("binary", n=_limited(n, 2000, name))
        if name == "timestamp":
            return Capacity("timestamp", digits=6 if n is None else n, zone=tail == "with time zone")
    elif dialect == "redshift":
        simple = {"boolean": Capacity("bool"), "smallint": _int(2), "integer": _int(4), "bigint": _int(8), "real": Capacity("float", bits=24),
                  "double precision": Capacity("float", bits=53), "text": Capacity("text", n=256), "date": Capacity("date"), "super": Capacity("json")}
        if args is None and full in simple:
            return simple[full]
        if name in ("decimal", "numeric"):
            return _decimal(args, (18, 0), 38)
        if name == "float":
            return _float(n)
        if name == "varchar":
            return Capacity("text", n=65535 if args == "max" else _limited(256 if n is None else n, 65535, name))
        if name == "char":
            return Capacity("char", n=_limited(1 if n is None else n, 4096, name))
        if name == "varbyte":
            return Capacity("binary", n=_limited(64000 if n is None else n, 1024000, name))
        if name in ("timestamp", "time"):
            return Capacity(name, digits=6 if n is None else n, zone=tail == "with time zone")
    elif dialect == "delta":
        simple = {"boolean": Capacity("bool"), "tinyint": _int(1), "smallint": _int(2), "integer": _int(4), "int": _int(4), "bigint": _int(8),
                  "float": Capacity("float", bits=24), "double": Capacity("float", bits=53), "string": Capacity("text", n=None), "date": Capacity("date"),
                  "time": Capacity("time", digits=6, zone=False), "timestamp_ntz": Capacity("timestamp", digits=6, zone=False), "timestamp": Capacity("timestamp", digits=6, zone=True), "binary": Capacity("binary", n=None)}
        if args is None and full in simple:
            return simple[full]
        if name in ("decimal", "numeric"):
            return _decimal(args, (10, 0), 38)
        if name in ("time", "char", "varchar"):
            return Capacity("time", digits=n, zone=False) if name == "time" else Capacity("text" if name == "varchar" else "char", n=_limited(n, 65535, name))
    elif dialect == "snowflake":
        simple = {"boolean": Capacity("bool"), "real": Capacity("float", bits=53), "double precision": Capacity("float", bits=53), "text": Capacity("text", n=16777216),
                  "date": Capacity("date"), "variant": Capacity("json")}
        if args is None and full in simple:
            return simple[full]
        if full in ("tinyint", "smallint", "integer", "bigint") and args is None:
            return Capacity("int", lo=-(10**38) + 1, hi=10**38 - 1)
        if name in ("decimal", "numeric"):
            return _decimal(args, (38, 0), 38)
        if name == "float":
            return Capacity("float", bits=53)
        if name == "varchar":
            return Capacity("text", n=_limited(16777216 if n is None else n, 16777216, name))
        if name == "char":
            return Capacity("char", n=_limited(1 if n is None else n, 16777216, name))
        if name == "binary":
            return Capacity("binary", n=_limited(8388608 if n is None else n, 8388608, name))
        if name in ("datetime", "timestamp") and not tail:
            return Capacity("timestamp", digits=9 if n is None else n, zone=False)
        if name == "time":
            return Capacity("time", digits=9 if n is None else n, zone=False)
    raise BadType(f"{dialect} has no type `{text}`")


def _decimal(args, default, most):
    if args is None:
        if default is None:
            return Capacity("decimal", p=None, s=None)
        p, s = default
    else:
        p, s = args[0], args[1] if len(args) > 1 else 0
    if not 1 <= p <= most or not 0 <= s <= p:
        raise BadType(f"decimal({p}, {s})")
    return Capacity("decimal", p=p, s=s)


def _float(n):
    if n is None:
        return Capacity("float", bits=53)
    if not 1 <= n <= 53:
        raise BadType(f"float({n})")
    return Capacity("float", bits=24 if n <= 24 else 53)


def _stored(x, bits):
    "The value after storing it with a number of significant bits."
    if bits >= 53 or x != x or x in (0.0, float("inf"), float("-inf")):
        return x
    m, e = math.frexp(x)
    y = math.ldexp(round(math.ldexp(m, bits)), e - bits)
    return y if bits > 24 or abs(y) < 2.0**128 else math.inf


def lacks(cap, value, digits=None):
    """
    Why a column cannot represent a value, or None.

    :param digits: Significant decimal digits that a floating-point value has to keep (default: all bits).
    """
    k = cap.kind
    if isinstance(value, bool):
        if k == "bool" or (k == "int" and cap.lo <= 0 and cap.hi >= 1) or k == "decimal":
            return None
        return f"no Boolean in {cap}"
    if isinstance(value, int):
        if k == "int":
            return None if cap.lo <= value <= cap.hi else f"{value} is not in [{cap.lo}, {cap.hi}]"
        if k == "decimal":
            return None if cap.p is None or abs(value) < 10 ** (cap.p - cap.s) else f"{value} exceeds {cap}"
        return f"no integer in {cap}"
    if isinstance(value, float):
        if k != "float":
            return f"no floating-point number in {cap}"
        if digits is not None:
            kept = _stored(value, cap.bits)
            return None if f"{kept:.{digits - 1}e}" == f"{value:.{digits - 1}e}" else f"{value} becomes {kept} in {cap}"
        return None if _stored(value, cap.bits) == value else f"{value!r} is not exact in {cap}"
    if isinstance(value, decimal.Decimal):
        if k != "decimal":
            return f"no decimal number in {cap}"
        if cap.p is None:
            return None
        if value != value.quantize(decimal.Decimal(1).scaleb(-cap.s), context=decimal.Context(prec=90)):
            return f"{value} has more than {cap.s} decimal places"
        return None if value.copy_abs() < 10 ** (cap.p - cap.s) else f"{value} exceeds {cap}"
    if isinstance(value, str):
        if k == "text":
            size = len(value.encode("utf-8")) if getattr(cap, "octets", False) else len(value)
            if cap.n is not None and size > cap.n:
                return f"{len(value)} characters exceed {cap.n}"
            return None
        if k == "char":
            return None if len(value) <= cap.n else f"{len(value)} characters exceed {cap.n}"
        if k == "enum":
            return None if value in cap.values else f"{value!r} is not one of {cap.values}"
        return f"no text in {cap}"
    if isinstance(value, datetime.datetime):
        if k != "timestamp":
            return f"no timestamp in {cap}"
        return _sub(value.microsecond, cap.digits)
    if isinstance(value, datetime.date):
        return None if k == "date" else f"no date in {cap}"
    if isinstance(value, datetime.time):
        return _sub(value.microsecond, cap.digits) if k in ("time", "interval") else f"no time of day in {cap}"
    if isinstance(value, datetime.timedelta):
        if k != "interval":
            return f"no interval in {cap}"
        return _sub(value.microseconds, cap.digits)
    if isinstance(value, uuid.UUID):
        return None if k == "uuid" else _octets(cap, 16)
    if isinstance(value, (ipaddress.IPv4Address, ipaddress.IPv6Address)):
        return None if k == "inet" else _octets(cap, len(value.packed))
    if isinstance(value, bytes):
        return _octets(cap, len(value))
    raise AssertionError(value)


def _sub(micros, digits):
    if digits < 6 and micros % 10 ** (6 - digits):
        return f"{micros} microseconds need more than {digits} digits"
    return None


def _octets(cap, n):
    if cap.kind == "binary":
        return None if cap.n is None or n <= cap.n else f"{n} bytes exceed {cap.n}"
    if cap.kind == "fixed":
        return None if n == cap.n else f"{n} bytes in a column of exactly {cap.n} bytes"
    return f"no binary data in {cap}"
