"""
C23: random test objects satisfy their class's constraints.

Entity classes with fields of every kind are generated, objects are drawn from the random generator, and every field of
every object is tested for membership in its declared type by the specification.
"""

import datetime
import decimal
import enum
import ipaddress
import random
import uuid

from hypothesis import strategies as st

import schema as S
from data import INTS
from vh import Part, Result, check, check_equal

PROPERTY = "C23"
RULE = "at least two objects are generated for a class with at least three fields apart from the key, one of which has a constraint or is optional"
ASSUMPTIONS = [
    "the count does not exceed the number of values of the key type",
    "the width of an integer is declared as a range (as in int8 .. uint64), not only as storage",
    "members of structures and elements of lists are not decimals, which the serialization library cannot convert to JSON",
    "unique fields are not promised distinct values (the statement covers keys)",
]
TYPES = st.one_of(
    S.simple_types("postgresql"),
    st.tuples(st.integers(-(2**63), 2**63), st.integers(0, 2**40)).map(lambda x: ["range", x[0], x[0] + x[1]]),
    st.tuples(st.sampled_from([-(2**31), -1000, -7, -1, 0, 1, 3]), st.sampled_from([-1, 0, 0, 1, 1, 7, 2**31])).filter(lambda x: x[0] <= x[1]).map(lambda x: ["range", *x]),
    st.tuples(st.sampled_from([None, 0, 1, 3, 255, 256, 300]), st.sampled_from([None, 0, 1, 4, 64, 255, 1000])).filter(lambda x: x != (None, None) and (None in x or x[0] <= x[1])).map(lambda x: ["length", *x]),
    st.tuples(st.integers(1, 20), st.integers(0, 20)).filter(lambda x: x[1] <= x[0]).map(lambda x: ["decimal", *x]),
    st.integers(0, 6).map(lambda p: ["datetime", p]),
    st.integers(0, 6).map(lambda p: ["time", p]),
    st.lists(st.sampled_from(["a", "b", "", "it's", "x y"]), min_size=1, unique=True).map(lambda v: ["literal", v]),
    st.sampled_from([["intunion", ["int8", "int16"]], ["intunion", ["uint8", "int64"]]]),
)
KNOWN = st.sampled_from(
    [["enum", 0, "Color"], ["enum", 0, "Level"], ["extenum", 0, "Country"], ["struct", 0, "Point"], ["struct", 0, "Place"], ["ref", 0, "T0"], ["ref", 0, "T1"], ["ref", 0, "T2"], ["dref", [[0, "T0"], [0, "T3"]]], ["ref", 0, "Main"]]
)
KEYS = {"T0": ["int"], "T1": ["uuid"], "T2": ["max", 16], "T3": ["int"]}
NAMES = ["name", "order", "value", "userName", "größe", "select", "x1", "flag"]


def jsonable(t):
    "The serialization library has no JSON form for decimals."
    return ["int"] if t[0] == "decimal" else t


@st.composite
def types(draw, unsupported=True):
    t = draw(st.one_of(TYPES, KNOWN))
    if unsupported and draw(st.integers(0, 40)) == 0:
        t = draw(st.sampled_from([["timedelta"], ["bytes"]]))
    if t[0] not in ("dref",) and draw(st.integers(0, 4)) == 0:
        t = [draw(st.sampled_from(["list", "set"])), jsonable(t)]
    return t


@st.composite
def fields(draw, names, max_size=6):
    out = []
    for name in draw(st.lists(st.sampled_from(names), min_size=1, max_size=max_size, unique=True)):
        f = {"name": name, "type": draw(types())}
        if draw(st.booleans()):
            f["opt"] = True
        elif f["type"][0] in ("int", "max", "uuid") and draw(st.integers(0, 3)) == 0:
            f["unique"] = True
        if draw(st.integers(0, 4)) == 0:
            d = S.default_for(draw, f["type"])
            if d is not None:
                f["default"] = d
        out.append(f)
    return out


@st.composite
def cases(draw):
    main = draw(fields(NAMES))
    role, key = draw(st.sampled_from([("pk", ["int"]), ("pk", ["int"]), ("id", ["int"]), ("pk", ["uuid"]), ("pk", ["int64"]), ("pk", ["int16"]), ("id", ["int32"]), ("pk", ["max", 32]), ("pk", ["date"])]))
    main = S.order_fields(main + [{"name": "id", "type": key, "role": role}])
    place = [f for f in draw(fields(["at", "code", "more"], 3)) if f["type"][:3] != ["struct", 0, "Place"] and f["type"][1:] != [["struct", 0, "Place"]]] or [{"name": "n", "type": ["int"]}]
    for f in place:
        f["type"] = jsonable(f["type"])
    mod = {
        "ns": "app",
        "enums": [draw(S.enum_def("Color", "str")), draw(S.enum_def("Level", "int")), {"name": "Country", "members": [["m0", draw(st.sampled_from(S.LABELS))]]}],
        "structs": [
            {"name": "Point", "fields": [{"name": "x", "type": ["int"]}, {"name": "label", "type": ["str"], "opt": True}]},
            {"name": "Place", "fields": S.order_fields(place)},
        ],
        "entities": [{"name": n, "fields": [{"name": "id", "type": t, "role": "pk"}]} for n, t in KEYS.items()] + [{"name": "Main", "fields": main}],
    }
    return {"spec": {"modules": [mod]}, "count": draw(st.sampled_from([0, 1, 2, 2, 3, 5, 5, 9, 17, 30, 300])), "seed": draw(st.integers(0, 2**32))}


def all_types(spec, fields):
    "Every type that a value of the fields may involve."
    for f in fields:
        pending = [f["type"]]
        while pending:
            t = pending.pop()
            yield t
            if t[0] in ("list", "set"):
                pending.append(t[1])
            if t[0] == "struct":
                yield from all_types(spec, next(s for s in spec["modules"][0]["structs"] if s["name"] == t[2])["fields"])


def is_json_of(text, parse):
    try:
        return isinstance(text, str) and parse(text) is not None
    except ValueError:
        return False


def member(spec, build, t, v, json=False):
    "Whether a value is one of a type; in the JSON form, enumerations are labels, and texts stand for values of other types."
    k = t[0]
    if k == "bool":
        return type(v) is bool
    if k in INTS:
        lo, hi = INTS[k] if k != "uint64" else (0, 2**64 - 1)
        return type(v) is int and lo <= v <= hi
    if k == "range":
        return type(v) is int and t[1] <= v <= t[2]
    if k == "intunion":
        return any(member(spec, build, [x], v) for x in t[1])
    if k in ("float", "float32", "float64"):
        return type(v) is float
    if k == "str":
        return type(v) is str
    if k == "max":
        return type(v) is str and len(v) <= t[1]
    if k == "length":
        return type(v) is str and (t[1] or 0) <= len(v) <= (t[2] if t[2] is not None else len(v))
    if k == "literal":
        return type(v) is str and v in t[1]
    if k == "litunion":
        return type(v) is str and (v in t[1] or t[2] is None or len(v) <= t[2])
    if k == "decimal":
        if type(v) is not decimal.Decimal or not v.is_finite():
            return False
        if len(t) == 1:
            return True
        scale = t[2] if len(t) > 2 else 0
        return abs(v) < decimal.Decimal(10) ** (t[1] - scale) and -v.as_tuple().exponent <= scale
    if k in ("datetime", "date", "time"):
        cls = getattr(datetime, k)
        if json:
            return is_json_of(v, cls.fromisoformat)
        if type(v) is not cls:
            return False
        return len(t) == 1 or v.microsecond % 10 ** (6 - t[1]) == 0
    if k in ("uuid", "ipv4", "ipv6", "ip"):
        classes = {"uuid": (uuid.UUID,), "ipv4": (ipaddress.IPv4Address,), "ipv6": (ipaddress.IPv6Address,), "ip": (ipaddress.IPv4Address, ipaddress.IPv6Address)}[k]
        if json:
            return any(is_json_of(v, c) for c in classes)
        return type(v) in classes
    if k in ("enum", "extenum"):
        cls = build.cls(t[1], t[2])
        if k == "extenum" and type(v) is str:
            return len(v) <= 64
        return v in [m.value for m in cls] if json else type(v) is cls
    if k == "ref":
        return member(spec, build, KEYS[t[2]] if t[2] in KEYS else main_key(spec)["type"], v, json)
    if k == "dref":
        return type(v) is int
    if k == "struct":
        members = next(s for s in spec["modules"][0]["structs"] if s["name"] == t[2])["fields"]
        return type(v) is dict and all(f["name"] in v or f.get("opt") for f in members) and all(any(f["name"] == n for f in members) for n in v) and all(
            f.get("opt") and v.get(f["name"]) is None or member(spec, build, f["type"], v[f["name"]], True) for f in members
        )
    if k in ("list", "set"):
        return type(v) is list and all(member(spec, build, t[1], x, True) for x in v)
    raise AssertionError(t)


def main_key(spec):
    return next(f for f in spec["modules"][0]["entities"][-1]["fields"] if f.get("role"))


def run(case):
    from pysqlsync.data.generator import DataGeneratorError, random_objects

    spec = case["spec"]
    fields = spec["modules"][0]["entities"][-1]["fields"]
    key = main_key(spec)
    random.seed(case["seed"])
    with S.Build(spec) as b:
        cls = b.cls(0, "Main")
        refused = key["type"][0] in ("max", "date") or any(t[0] in ("timedelta", "bytes") for t in all_types(spec, fields))
        try:
            items = random_objects(cls, case["count"])
        except DataGeneratorError:
            check(refused, "a class of supported field types has been refused")
            return Result(False, ["refused"])
        check(not refused, "a class with a field or key of unsupported type has been accepted")
        check_equal(len(items), case["count"], "number of objects")
        check(all(type(x) is cls for x in items), "objects of another class")
        keys = [getattr(x, key["name"]) for x in items]
        check_equal(len(set(keys)), len(keys), "number of distinct keys")
        for x in items:
            for f in fields:
                v = getattr(x, f["name"])
                if v is None:
                    check(f.get("opt"), lambda: f"mandatory field {f['name']} is None")
                else:
                    check(member(spec, b, f["type"], v), lambda: f"field {f['name']} of type {f['type']} holds {v!r}")
        if case["count"] >= 300:
            for f in fields:
                values = [getattr(x, f["name"]) for x in items]
                if f.get("opt"):
                    # less likely than 1e-12 by chance
                    check(any(v is not None for v in values), lambda: f"optional field {f['name']} is None in all {len(items)} objects")
                    check(any(v is None for v in values), lambda: f"optional field {f['name']} is None in none of {len(items)} objects")
    some = [f for f in fields if f.get("opt") or f["type"][0] in ("range", "length", "max", "decimal", "enum", "literal", "ref", "uint8", "int8")]
    return Result(len(items) >= 2 and len(fields) > 3 and bool(some), sorted({f["type"][0] for f in fields if not f.get("role")}))


@st.composite
def helper_cases(draw):
    kind = draw(st.sampled_from(["datetime", "date", "time", "text", "decimal", "enum", "enum", "ip"]))
    case = {"kind": kind, "seed": draw(st.integers(0, 2**32))}
    if kind in ("datetime", "date"):
        case["start"] = draw(st.integers(0, 10**5))
        case["length"] = draw(st.integers(1, 10**5))
    elif kind == "time":
        a, z = sorted(draw(st.lists(st.integers(0, 86399), min_size=2, max_size=2, unique=True)))
        case["start"], case["length"] = a, z - a
    elif kind == "text":
        case["start"] = draw(st.integers(0, 20))
        case["length"] = draw(st.integers(0, 20))
    elif kind == "decimal":
        case["start"] = draw(st.integers(1, 30))
        case["length"] = draw(st.integers(0, case["start"]))
    elif kind == "enum":
        case["members"] = draw(st.integers(1, 6))
        case["limits"] = draw(st.sampled_from(["count", "min", "max", "both", "none"]))
        case["start"] = draw(st.integers(0, 8))
        case["length"] = draw(st.integers(0, 8))
    return case


def run_helper(case):
    import pysqlsync.data.generator as g

    random.seed(case["seed"])
    kind, a, n = case["kind"], case.get("start"), case.get("length")
    if kind == "datetime":
        start = datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=a)
        end = start + datetime.timedelta(seconds=n)
        v = g.random_datetime(start, end)
        check(type(v) is datetime.datetime and start <= v < end, lambda: f"{v} is not between {start} and {end}")
    elif kind == "date":
        start = datetime.date(1900, 1, 1) + datetime.timedelta(days=a)
        end = start + datetime.timedelta(days=n)
        v = g.random_date(start, end)
        check(type(v) is datetime.date and start <= v < end, lambda: f"{v} is not between {start} and {end}")
    elif kind == "time":
        base = datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone.utc)
        start = (base + datetime.timedelta(seconds=a)).timetz()
        end = (base + datetime.timedelta(seconds=a + n)).timetz()
        v = g.random_time(start, end)
        check(type(v) is datetime.time and start <= v < end, lambda: f"{v} is not between {start} and {end}")
    elif kind == "text":
        v = g.random_alphanumeric_str(a, a + n)
        check(a <= len(v) <= a + n and (v.isalnum() or not v) and v.isascii(), lambda: f"{v!r} has not {a} to {a + n} letters and digits")
    elif kind == "decimal":
        v = g.random_decimal(a, n)
        check(0 <= v < decimal.Decimal(10) ** (a - n) and v.as_tuple().exponent == -n, lambda: f"{v} has not {a} digits, {n} of them decimal")
    elif kind == "ip":
        check(type(g.random_ipv4addr()) is ipaddress.IPv4Address and type(g.random_ipv6addr()) is ipaddress.IPv6Address, "not an address")
    else:
        E = enum.Enum("E", [f"m{i}" for i in range(case["members"])])
        limits = case["limits"]
        kwargs = {"count": {"count": a}, "min": {"min_count": a}, "max": {"max_count": a}, "both": {"min_count": a, "max_count": a + n}, "none": {}}[limits]
        if limits == "none" or limits == "min" and a > 4 or limits in ("max", "both") and a == 0:
            return Result(False, ["enum: no limits"])
        make = g.random_enum_generator(E, **kwargs)
        lo, hi = {"count": (a, a), "min": (a, 4), "max": (0, a), "both": (a, a + n)}[limits]
        for _ in range(5):
            v = make()
            check(type(v) is list and all(isinstance(x, E) for x in v) and len(set(v)) == len(v), lambda: f"{v} is not a list of distinct members")
            check(min(lo, len(E)) <= len(v) <= min(hi, len(E)), lambda: f"{len(v)} of {len(E)} members for limits {kwargs}")
    return Result(True, [kind])


PARTS = [
    Part("objects", cases, run, quick=2500, thorough=60000),
    Part("helpers", helper_cases, run_helper, quick=1500, thorough=20000),
]
