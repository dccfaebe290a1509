"""
C14: column types can hold every value of the Python field type.

Fields of generated types become columns; the type written in the emitted SQL is read by an independent model of the
dialect's types (lib/coltypes.py), which is asked to hold the boundary values of the field type.
"""

import datetime
import decimal
import ipaddress
import uuid

from hypothesis import strategies as st

import coltypes
import migrate
import refdb
import schema as S
from vh import Part, Result, check

PROPERTY = "C14"
RULE = "the field has a restricted type (width, range, length, precision, scale, size, labels) rather than a plain one"
ASSUMPTIONS = [
    "int without annotation means a 64-bit integer; text length limits count in the unit of the dialect's character type",
    "datetime values are without time zone and from the year 1000 on",
    "a fixed-width character column holds a text up to trailing blanks",
    "limits of the types are those documented by the vendors (MySQL with utf8mb4, Microsoft SQL Server with UTF-8 collation)",
    "Trino is excluded: pysqlsync only queries it",
]

DIALECTS = tuple(d for d in S.ALL if d != "trino")
LENGTHS = [1, 2, 63, 64, 255, 256, 2000, 2001, 4000, 4001, 8000, 8001, 16383, 16384, 65535, 65536, 1000000]


@st.composite
def ftypes(draw, dialect, em, sm, am, names, depth=0):
    ints = ["int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
    kinds = ["int", "uint", "bool", "float", "floatp", "str", "max", "decimal", "datetime", "date", "time", "uuid", "ip", "range", "literal", "litunion", "intunion", "enum", "extenum"]
    if dialect == "postgresql":
        kinds.append("timedelta")
    if dialect == "delta":
        kinds.remove("floatp")
    if depth == 0:
        kinds += ["struct", "ref", "dref"] + (["list"] if am != "RELATION" else [])
    elif sm == "TYPE" and em not in ("TYPE", "CHECK"):
        kinds.remove("enum")
    if depth:
        kinds.remove("extenum")
    k = draw(st.sampled_from(kinds))
    if k == "int":
        return [draw(st.sampled_from(ints[:5]))]
    if k == "uint":
        return [draw(st.sampled_from(ints[5:]))]
    if k == "float":
        return [draw(st.sampled_from(["float", "float32", "float64"]))]
    if k == "floatp":
        return ["float", draw(st.integers(1, 15))]
    if k == "max":
        return ["max", draw(st.one_of(st.sampled_from([n for n in LENGTHS if dialect != "redshift" or n < 65536]), st.integers(1, 300)))]
    if k == "decimal":
        shape = draw(st.sampled_from([0, 1, 2, 2]))
        if shape == 0:
            return ["decimal"]
        p = draw(st.integers(1, 38))
        return ["decimal", p] if shape == 1 else ["decimal", p, draw(st.integers(0, min(p, 30)))]
    if k in ("datetime", "time"):
        return draw(st.sampled_from([[k], [k, 0], [k, 3], [k, 6]]))
    if k == "ip":
        return [draw(st.sampled_from(["ipv4", "ipv6", "ip"]))]
    if k == "range":
        lo, hi = sorted(draw(st.lists(st.one_of(st.integers(-(2**63), 2**63 - 1), st.sampled_from([0, -1, 255, 256, 65535, -(2**31), 2**31])), min_size=2, max_size=2)))
        return ["range", lo, hi]
    if k == "literal":
        return ["literal", draw(st.lists(st.text("abé'% ", min_size=1, max_size=8).filter(lambda s: s == s.strip()), min_size=1, max_size=3, unique=True))]
    if k == "litunion":
        return ["litunion", draw(st.lists(st.text("abc", min_size=1, max_size=30), min_size=1, max_size=2, unique=True)), draw(st.sampled_from([None, 1, 20, 5000]))]
    if k == "intunion":
        return ["intunion", draw(st.lists(st.sampled_from(ints), min_size=2, max_size=3, unique=True))]
    if k == "enum":
        return ["enum", 0, draw(st.sampled_from(names["enum"]))]
    if k == "extenum":
        return ["extenum", 0, "Ext"]
    if k == "struct":
        return ["struct", 0, "Struct"]
    if k == "ref":
        return ["ref", 0, draw(st.sampled_from(["Other", "Third"]))]
    if k == "dref":
        return ["dref", [[0, "Other"], [0, "Third"]]]
    if k == "list":
        item = draw(ftypes(dialect, em, sm, am, names, 1).filter(lambda t: t[0] in S.SIMPLE and t[0] != "ip" or t[0] in ("enum", "max", "decimal")))
        return [draw(st.sampled_from(["list", "set"])), item]
    return [k]


@st.composite
def cases(draw):
    o = draw(S.options(DIALECTS))
    em, sm, am = S.effective(o)
    label = st.text(st.characters(codec="utf-8", exclude_characters="\x00", exclude_categories=("Cs", "Cc", "Zl", "Zp")), min_size=1, max_size=64)
    strs = draw(st.lists(st.one_of(label, st.sampled_from(["a" * 64, "it's", "back\\slash"])), min_size=2, max_size=4, unique_by=str.casefold))
    if em == "TYPE":
        strs = [v.encode()[:60].decode("utf-8", "ignore") + str(i) for i, v in enumerate(strs)]  # at most 63 bytes
    ints = draw(st.lists(st.integers(-(2**63), 2**63 - 1), min_size=2, max_size=3, unique=True))
    enums = [
        {"name": "Text", "members": [[f"m{i}", v] for i, v in enumerate(strs)]},
        {"name": "Number", "members": [[f"m{i}", v] for i, v in enumerate(ints)]},
        {"name": "Ext", "members": [["m0", "only"]]},
    ]
    names = {"enum": ["Text", "Number"]}
    n = draw(st.integers(1, 5))
    fields = []
    for i in range(n):
        f = {"name": f"f{i}", "type": draw(ftypes(o["dialect"], em, sm, am, names))}
        if draw(st.booleans()):
            f["opt"] = True
        fields.append(f)
    members = []
    for i in range(draw(st.integers(1, 3))):
        f = {"name": f"s{i}", "type": draw(ftypes(o["dialect"], em, sm, am, names, 1))}
        if draw(st.booleans()):
            f["opt"] = True
        members.append(f)
    keys = st.sampled_from([["int"], ["int32"], ["uuid"], ["max", 40], ["int16"], ["uint16"], ["uint32"], ["max", 255], ["max", 4]])
    key = draw(keys)
    third = draw(keys) if draw(st.integers(0, 3)) == 0 else key  # of entities that a discriminated union has in common
    ent = lambda name, fs: {"name": name, "fields": [{"name": "id", "type": third if name == "Third" else key, "role": "pk"}] + fs}
    return {
        "opts": o,
        "spec": {"modules": [{"ns": draw(st.sampled_from([None, "app"])), "enums": enums, "structs": [{"name": "Struct", "fields": members}], "entities": [ent("Main", fields), ent("Other", []), ent("Third", [])]}]},
    }


D = decimal.Decimal
DT = datetime.datetime
WIDE = decimal.Context(prec=80)


def values(t, dialect):
    """
    Boundary values of a field type.

    :param dialect: Leave out the values that are known findings for the dialect (None: complete).
    """
    k = t[0]
    if dialect is not None:
        if k == "uint64" and dialect not in ("oracle", "snowflake") or k == "storage" and t == ["storage", 8, False]:
            return [0, 2**63 - 1]
        if k == "decimal" and len(t) == 1 and dialect != "postgresql":
            return [D(0), D(-(10**9))]
        if k in ("datetime", "time") and len(t) == 1 and dialect == "mysql":
            return values([k, 0], dialect)
        if k == "ip" and dialect in ("mysql", "mssql"):
            return values(["ipv6"], dialect)
    if k.startswith("int") and k != "intunion" or k.startswith("uint"):
        w = int(k.lstrip("uint") or 64)
        return [0, 2**w - 1, 1] if k.startswith("u") else [-(2 ** (w - 1)), 2 ** (w - 1) - 1, 0]
    if k == "bool":
        return [True, False]
    if k == "float" and len(t) > 1:
        return [float("1." + "123456789123456"[: t[1] - 1]), float("9" * t[1]), 0.0]
    if k in ("float", "float64"):
        return [0.1, 1.7976931348623157e308 if False else 1e30, -1 / 3, 0.0]
    if k == "float32":
        return [0.5, 16777215.0, 2.0**100, -0.25]
    if k == "str":
        return ["", "x" * 1000, "y" * 60000]
    if k == "max":
        return ["x" * t[1], "x"]
    if k == "storage":
        return values([f"{'' if t[2] else 'u'}int{8 * t[1]}"], dialect)
    if k == "decimal":
        if len(t) == 1:
            return [D("0.5"), D("123456789.125"), D(10) ** 20]
        s = t[2] if len(t) > 2 else 0
        top = WIDE.create_decimal(10 ** t[1] - 1).scaleb(-s, WIDE)
        return [top, top.copy_negate(), D(1).scaleb(-s, WIDE)]
    if k == "datetime":
        p = t[1] if len(t) > 1 else 6
        us = 999999 // 10 ** (6 - p) * 10 ** (6 - p)
        return [DT(9999, 12, 31, 23, 59, 59, us), DT(1000, 1, 1), DT(2020, 2, 29, 12, 0, 0, us)]
    if k == "date":
        return [datetime.date(1000, 1, 1), datetime.date(9999, 12, 31)]
    if k == "time":
        p = t[1] if len(t) > 1 else 6
        us = 999999 // 10 ** (6 - p) * 10 ** (6 - p)
        return [datetime.time(23, 59, 59, us), datetime.time(0)]
    if k == "timedelta":
        return [datetime.timedelta(days=400, microseconds=1), datetime.timedelta(0)]
    if k == "uuid":
        return [uuid.UUID(int=0), uuid.UUID(int=2**128 - 1)]
    if k == "ipv4":
        return [ipaddress.IPv4Address("192.168.0.1")]
    if k == "ipv6":
        return [ipaddress.IPv6Address("::1")]
    if k == "ip":
        return [ipaddress.IPv6Address("::1"), ipaddress.IPv4Address("192.168.0.1")]
    if k == "range":
        return [t[1], t[2]]
    if k == "literal":
        return list(t[1])
    if k == "litunion":
        return list(t[1]) + ["x" * (t[2] if t[2] is not None else 60000)]
    if k == "intunion":
        return [v for x in t[1] for v in values([x], dialect)]
    raise ValueError(t)


PLAIN = ("int", "str", "bool", "float", "uuid", "date", "timedelta")


def run(case):
    opts, spec = case["opts"], case["spec"]
    dialect = opts["dialect"]
    em, sm, am = S.effective(opts)
    mod = spec["modules"][0]
    enums = {e["name"]: [v for _, v in e["members"]] for e in mod["enums"]}
    labels = set()
    domain = None if case.get("complete") else dialect
    with S.Build(spec) as b:
        g = S.make_generator(opts, b)
        keys = {e["name"]: e["fields"][0]["type"] for e in mod["entities"]}
        mixed = [f for f in mod["entities"][0]["fields"] if f["type"][0] == "dref" and len({str(keys[n]) for _, n in f["type"][1]}) > 1]
        try:
            sql = g.create(modules=b.modules)
        except TypeError:
            if not mixed:
                raise
            return Result(True, [dialect, "keys differ"])  # the entities of a union have no key type in common
        db = None
        if dialect in S.RELATIONAL:
            db = refdb.RefDB(dialect)
            db.relax_df_names = True
            migrate.execute(db, sql, "creation script")

            def columns(name):
                schema, table = ("", f"{mod['ns']}__{name}" if mod["ns"] else name) if dialect in S.PREFIXED else (mod["ns"] or "", name)
                t = db.snapshot()["tables"][f"{schema}.{table}"]
                return {n: (c["type"], c["nullable"]) for n, c in t["columns"].items()}

        else:

            def columns(name):
                from pysqlsync.formation.inspection import is_entity_type  # noqa: F401
                from pysqlsync.model.id_types import PrefixedId, QualifiedId

                t = g.state.get_table(QualifiedId(mod["ns"], name))
                return {c.name.local_id: (str(c.data_type), c.nullable) for c in t.columns.values()}

        main = columns("Main")

        def capacity(text, f, what):
            try:
                return coltypes.parse(text, dialect)
            except coltypes.BadType as e:
                check(False, f"type of {what} {f['type']} is written `{text}` in {dialect}: {e}")

        def examine(f, text, what, t=None, user_types=True):
            t = t or f["type"]
            k = t[0]
            if k == "enum" and em == "TYPE":
                key = (mod["ns"] + "." if mod["ns"] else ".") + t[2]
                got = db.snapshot()["types"].get(key)
                check(got is not None and t[2] in text, lambda: f"{what} has type {text}")
                check(sorted(got["enum"]) == sorted(str(v) for v in enums[t[2]]), lambda: f"labels of {key}: {got}")
                return
            if k == "struct" and sm == "TYPE":
                check("Struct" in text, f"{what} has type {text}")
                return
            if k == "struct" and sm == "INLINE":
                check(text.startswith("STRUCT"), f"{what} has type {text}")
                return
            if k in ("struct", "list", "set") and (k != "struct" and am == "JSON" or k == "struct"):
                cap = capacity(text, f, what)
                check(cap.kind in ("json", "text") and (getattr(cap, "n", None) is None or cap.n >= 65535), lambda: f"{what} {t} is serialised into {text}")
                return
            if k in ("list", "set"):
                check(text.lower().endswith("array") or text.lower().startswith("array"), f"{what} has type {text}")
                inner = text[:-5].strip() if text.lower().endswith("array") else text[text.index("<") + 1 : text.rindex(">")].strip()
                examine(f, inner, what + " item", t[1])
                return
            cap = capacity(text, f, what)
            if k == "extenum" or k == "enum" and em == "RELATION":
                vals = [1, 2**31 - 1]
            elif k == "enum":
                vals = [str(v) if em == "INLINE" else v for v in enums[t[2]]]
            elif k in ("ref", "dref"):
                vals = [v for _, n in (t[1] if k == "dref" else [t[1:]]) for v in values(keys[n], domain)]
            else:
                vals = values(t, domain)
            digits = t[1] if k == "float" and len(t) > 1 else None
            for v in vals:
                why = coltypes.lacks(cap, v, digits)
                check(why is None, lambda: f"{what} {t} of type `{text}` in {dialect} cannot hold {v!r:.80}: {why}")
            if k == "literal" and cap.kind == "char":
                # values of this length come back as they are, not padded with blanks
                check(cap.n == max(len(v) for v in vals), lambda: f"{what} {t} of type `{text}` in {dialect} pads all values")
            labels.add(k)

        for f in mod["entities"][0]["fields"]:
            if f["name"] not in main:
                check(False, f"no column {f['name']}")
            text, nullable = main[f["name"]]
            check(nullable == bool(f.get("opt")), lambda: f"column {f['name']} ({f}) nullable: {nullable}")
            if f["type"][0] in ("enum",) and em == "RELATION" or f["type"][0] == "extenum":
                vt = columns(f["type"][2])["value"]
                check(not vt[1], "value column of a lookup table accepts NULL")
                c = capacity(vt[0], {"type": ["max", 64]}, "lookup value")
                for v in enums[f["type"][2]]:
                    why = coltypes.lacks(c, str(v))
                    check(why is None, lambda: f"lookup table cannot hold {v!r}: {why}")
            examine(f, text, f"column {f['name']}")
        if sm == "TYPE" and db is not None and any(f["type"][0] == "struct" for f in mod["entities"][0]["fields"]):
            members = db.snapshot()["types"][(mod["ns"] + "." if mod["ns"] else ".") + "Struct"]["members"]
            for f in mod["structs"][0]["fields"]:
                examine(f, members[f["name"]], f"member {f['name']}")
    restricted = any(f["type"][0] not in PLAIN or len(f["type"]) > 1 for f in mod["entities"][0]["fields"][1:])
    return Result(restricted, [dialect] + sorted(labels))


# every field type on its own, in every dialect: the complete matrix of simple types
def single_specs():
    ts = [[k] for k in ("bool", "int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float", "float32", "float64", "str", "decimal", "datetime", "date", "time", "uuid", "ipv4", "ipv6", "ip")]
    ts += [["max", n] for n in LENGTHS] + [["float", p] for p in (1, 6, 7, 8, 15)] + [[k, p] for k in ("datetime", "time") for p in (0, 3, 6)]
    ts += [["decimal", 38], ["decimal", 38, 30], ["decimal", 1, 1], ["range", 0, 2**63 - 1], ["range", -128, 127], ["literal", ["one", "three"]], ["litunion", ["unknown"], 3], ["litunion", ["unknown"], None]]
    ts += [["intunion", ["int16", "uint16"]], ["intunion", ["int32", "int64"]], ["timedelta"], ["storage", 2, True], ["storage", 4, True], ["storage", 8, True], ["storage", 2, False], ["storage", 4, False]]
    out = []
    for d in DIALECTS:
        for t in ts:
            if t[0] == "timedelta" and d != "postgresql":
                continue
            if t[0] == "float" and len(t) > 1 and d == "delta" or t[0] == "max" and t[1] > 65535 and d == "redshift":
                continue  # refused, or beyond what the database has
            for opt in (False, True):
                f = {"name": "f0", "type": t}
                if opt:
                    f["opt"] = True
                key = {"name": "id", "type": ["int"], "role": "pk"}
                out.append({"opts": {"dialect": d}, "spec": {"modules": [{"ns": None, "enums": [], "structs": [], "entities": [{"name": "Main", "fields": [key, f]}, {"name": "Other", "fields": [key]}]}]}})
    return out


PARTS = [
    Part("fields", cases, run, quick=1800, thorough=30000),
    Part("matrix", lambda: st.sampled_from(MATRIX), run, quick=300, thorough=400, corpus=None),
]
MATRIX = single_specs()
PARTS[1].corpus = MATRIX
