"""
Schemas as JSON specifications.

A specification describes modules of entity classes, structures and enumerations. It is rendered as Python source,
executed in synthetic modules, and given to the code under test; an independent reading of the specification (not of the
objects of the code under test) is the reference where a check needs one.
"""

import copy
import itertools
import linecache
import sys
import types
import typing

from hypothesis import strategies as st

RELATIONAL = ("postgresql", "mysql", "mssql", "oracle")
ALL = RELATIONAL + ("redshift", "delta", "snowflake", "trino")

HEADER = '''import dataclasses, datetime, decimal, enum, ipaddress, uuid
from dataclasses import dataclass
from typing import Annotated, Literal, Optional, Union
from strong_typing.auxiliary import IntegerRange, MaxLength, MinLength, Precision, Storage, Signed, TimePrecision
from strong_typing.auxiliary import float32, float64, int8, int16, int32, int64, uint8, uint16, uint32, uint64
from strong_typing.core import JsonType
from pysqlsync.model.key_types import DEFAULT, Identity, PrimaryKey, Unique
from schema import Note
'''


class Note:
    "An annotation that has no bearing on SQL."

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return f"Note({self.text!r})"

# ---------------------------------------------------------------------------------------------------------- rendering

SIMPLE = {
    "bool": "bool",
    "int": "int",
    "int8": "int8",
    "int16": "int16",
    "int32": "int32",
    "int64": "int64",
    "uint8": "uint8",
    "uint16": "uint16",
    "uint32": "uint32",
    "uint64": "uint64",
    "float": "float",
    "float32": "float32",
    "float64": "float64",
    "str": "str",
    "datetime": "datetime.datetime",
    "date": "datetime.date",
    "time": "datetime.time",
    "timedelta": "datetime.timedelta",
    "uuid": "uuid.UUID",
    "json": "JsonType",
    "ipv4": "ipaddress.IPv4Address",
    "ipv6": "ipaddress.IPv6Address",
    "ip": "Union[ipaddress.IPv4Address, ipaddress.IPv6Address]",
    "bytes": "bytes",
}


class Namer:
    "Maps module indices to module names for one build of a specification."

    def __init__(self, prefix):
        self.prefix = prefix

    def module(self, i):
        return f"{self.prefix}{i}"


def texpr(t, m, namer):
    """
    Type expression of a type descriptor in the context of module `m`.

    :returns: A pair of expression and whether it must be quoted as a whole (forward or cross-module reference).
    """
    k = t[0]
    if k in SIMPLE:
        if len(t) > 1 and k in ("datetime", "time"):
            return f"Annotated[{SIMPLE[k]}, TimePrecision({t[1]})]", False
        if len(t) > 1 and k == "float":
            return f"Annotated[float, Precision({t[1]})]", False
        return SIMPLE[k], False
    if k == "range":
        return f"Annotated[int, IntegerRange({t[1]}, {t[2]})]", False
    if k == "storage":
        return f"Annotated[int, Signed({t[2]}), Storage({t[1]})]", False
    if k == "max":
        return f"Annotated[str, MaxLength({t[1]})]", False
    if k == "length":  # lower and upper limit of the length of text
        limits = [f"{n}({v})" for n, v in (("MinLength", t[1]), ("MaxLength", t[2])) if v is not None]
        return f"Annotated[str, {', '.join(limits)}]", False
    if k == "decimal":
        if len(t) == 1:
            return "decimal.Decimal", False
        if len(t) == 2:
            return f"Annotated[decimal.Decimal, Precision({t[1]})]", False
        return f"Annotated[decimal.Decimal, Precision({t[1]}, {t[2]})]", False
    if k in ("enum", "struct"):
        if t[1] == m:
            return t[2], False
        return f"{namer.module(t[1])}.{t[2]}", True
    if k == "extenum":
        q = t[2] if t[1] == m else f"{namer.module(t[1])}.{t[2]}"
        return f"Union[{q}, Annotated[str, MaxLength(64)]]", t[1] != m
    if k == "ref":
        return (t[2] if t[1] == m else f"{namer.module(t[1])}.{t[2]}"), True
    if k == "dref":
        parts = [texpr(["ref", *r], m, namer)[0] for r in t[1]]
        return f"Union[{', '.join(parts)}]", True
    if k in ("list", "set"):
        e, q = texpr(t[1], m, namer)
        return f"{k}[{e}]", q
    if k == "literal":
        return f"Literal[{', '.join(repr(v) for v in t[1])}]", False
    if k == "litunion":  # Union[Literal["unknown"], Annotated[str, MaxLength(255)]]
        s = "str" if t[2] is None else f"Annotated[str, MaxLength({t[2]})]"
        return f"Union[Literal[{', '.join(repr(v) for v in t[1])}], {s}]", False
    if k == "intunion":
        return f"Union[{', '.join(SIMPLE[x] for x in t[1])}]", False
    raise ValueError(f"unknown type: {t}")


def fexpr(f, m, namer):
    "Annotation of a field."
    e, quoted = texpr(f["type"], m, namer)
    if f.get("note"):
        e = f"Annotated[{e}, Note({f['note']!r})]"
    role = f.get("role")
    if role == "id":
        e = f"PrimaryKey[Identity[{e}]]"
    elif role == "pk":
        e = f"PrimaryKey[{e}]"
    else:
        if f.get("opt"):
            e = f"Optional[{e}]"
        if f.get("unique"):
            e = f"Unique[{e}]"
    return repr(e) if quoted else e


def is_member(d):
    "Whether a default is a member of an enumeration (the type of the field)."
    return isinstance(d, list) and d[0] == "member"


def members(spec, t):
    "Members of an enumeration."
    return next((e for e in spec["modules"][t[1]]["enums"] if e["name"] == t[2]), {"members": []})["members"]


def member_value(spec, f):
    "Value of the default of a field that is a member of an enumeration."
    return dict(members(spec, f["type"]))[f["default"][1]]


def member_default(draw, spec, m, t):
    "A default for a field whose type is an enumeration; modules are executed in order."
    if t[0] in ("enum", "extenum") and t[1] <= m:
        return ["member", draw(st.sampled_from([n for n, _ in members(spec, t)]))]
    return None


def vexpr(v):
    "Expression of a default value: JSON scalar, or a tagged list."
    if isinstance(v, list):
        tag, x = v
        if tag == "decimal":
            return f"decimal.Decimal({x!r})"
        if tag == "datetime":
            return "datetime.datetime.fromisoformat(%r)" % x
        if tag == "float":
            return f"float({x!r})"
        if tag == "expr":
            return x
        raise ValueError(v)
    return repr(v)


def docstring(doc, fields, indent):
    lines = []
    if doc is not None:
        lines += doc.split("\n")
    params = [(f["name"], f["doc"]) for f in fields if f.get("doc") is not None]
    if params:
        if lines:
            lines.append("")
        else:
            lines += ["Class.", ""]
        lines += [f":param {n}: {d}" for n, d in params]
    if not lines:
        return []
    text = "\n" + "\n".join(indent + x if x else "" for x in lines) + "\n" + indent
    return [indent + "__doc__ = " + repr(text)]


def effective_doc(cls):
    "The description a class is documented with (a class that documents only its fields still needs a summary)."
    if cls.get("doc") is not None:
        return cls["doc"]
    if any(f.get("doc") is not None for f in cls["fields"]):
        return "Class."
    return None


def render_module(spec, m, namer):
    mod = spec["modules"][m]
    out = [HEADER]
    for j in range(len(spec["modules"])):
        if j != m:
            out.append(f"import {namer.module(j)}")
    for e in mod.get("enums", []):
        out.append("")
        out.append(f"class {e['name']}(enum.Enum):")
        for n, v in e["members"]:
            out.append(f"    {n} = {v!r}")
    for kind in ("structs", "entities"):
        for c in mod.get(kind, []):
            out.append("")
            out.append("@dataclass")
            out.append(f"class {c['name']}:")
            out += docstring(c.get("doc"), c["fields"], "    ")
            for f in c["fields"]:
                d = ""
                if is_member(f.get("default")):
                    d = f" = {texpr(f['type'] if f['type'][0] == 'enum' else ['enum', *f['type'][1:]], m, namer)[0]}.{f['default'][1]}"
                elif f.get("default") is not None:
                    d = f" = {vexpr(f['default'])}"
                elif f.get("default_none"):
                    d = " = None"
                out.append(f"    {f['name']}: {fexpr(f, m, namer)}{d}")
            if not c["fields"]:
                out.append("    pass")
    return "\n".join(out) + "\n"


CHURNED = itertools.count(1)


def churn():
    "Uses many other types, as a large program does, such that Python's cache of parametrised types forgets those in use."
    for i in itertools.islice(CHURNED, 160):
        typing.Annotated[int, i]


class Build:
    "Executes a specification in modules; a context manager that removes the modules afterwards."

    def __init__(self, spec, prefix="vm", modules=None):
        self.spec = spec
        self.namer = Namer(prefix)
        self.prefix = prefix
        self.all_modules = []
        self.sources = []
        self.reuse = modules

    def __enter__(self):
        n = len(self.spec["modules"])
        for i in range(n):
            name = self.namer.module(i)
            if self.reuse is not None and i < len(self.reuse):
                mod = self.reuse[i]
                keep = {k: v for k, v in vars(mod).items() if k.startswith("__")}
                vars(mod).clear()
                vars(mod).update(keep)
            else:
                mod = types.ModuleType(name)
            sys.modules[name] = mod
            self.all_modules.append(mod)
        for i in range(n):
            src = render_module(self.spec, i, self.namer)
            self.sources.append(src)
            file = f"<{self.namer.module(i)}>"
            linecache.cache[file] = (len(src), None, src.splitlines(True), file)
            exec(compile(src, file, "exec"), vars(self.all_modules[i]))
        churn()
        return self

    def __exit__(self, *exc):
        for i in range(len(self.all_modules)):
            sys.modules.pop(self.namer.module(i), None)
            linecache.cache.pop(f"<{self.namer.module(i)}>", None)

    def cls(self, m, name):
        return getattr(self.all_modules[m], name)

    @property
    def modules(self):
        "Modules that are part of the schema (an absent one merely keeps its position)."
        return [self.all_modules[i] for i, mod in enumerate(self.spec["modules"]) if not mod.get("absent")]

    @property
    def entities(self):
        return [self.cls(i, e["name"]) for i, mod in enumerate(self.spec["modules"]) for e in mod["entities"]]

    @property
    def namespaces(self):
        return {self.all_modules[i]: mod["ns"] for i, mod in enumerate(self.spec["modules"]) if not mod.get("absent")}


def make_options(opts, build):
    from pysqlsync.base import GeneratorOptions
    from pysqlsync.formation.mutation import MutatorOptions
    from pysqlsync.formation.py_to_sql import ArrayMode, EnumMode, StructMode

    sync = opts.get("sync") or {}
    return GeneratorOptions(
        enum_mode=EnumMode[opts["enum_mode"]] if opts.get("enum_mode") else None,
        struct_mode=StructMode[opts["struct_mode"]] if opts.get("struct_mode") else None,
        array_mode=ArrayMode[opts["array_mode"]] if opts.get("array_mode") else None,
        namespaces=build.namespaces,
        foreign_constraints=opts.get("foreign_constraints", True),
        initialize_tables=opts.get("initialize_tables", False),
        synchronization=MutatorOptions(**sync),
        skip_annotations=(Note,) if opts.get("notes") else (),
        auto_default=opts.get("auto_default", False),
    )


def make_generator(opts, build):
    from pysqlsync.factory import get_dialect

    return get_dialect(opts["dialect"]).create_generator(make_options(opts, build))


# ----------------------------------------------------------------------------------------------------- dialect facts

MODES = {
    "postgresql": (["TYPE", "RELATION", "CHECK"], ["TYPE", "JSON"], ["ARRAY", "JSON", "RELATION"]),
    "mysql": (["INLINE", "RELATION", "CHECK"], ["JSON"], ["JSON", "RELATION"]),
    "mssql": (["RELATION", "CHECK"], ["JSON"], ["JSON", "RELATION"]),
    "oracle": (["RELATION", "CHECK"], ["JSON"], ["JSON", "RELATION"]),
    "redshift": (["CHECK"], ["JSON"], ["JSON", "RELATION"]),
    "delta": (["CHECK"], ["INLINE", "JSON"], ["ARRAY", "JSON", "RELATION"]),
    "snowflake": (["CHECK"], ["JSON"], ["JSON", "RELATION"]),
    "trino": (["CHECK", "TYPE", "INLINE", "RELATION"], ["JSON", "TYPE", "INLINE"], ["JSON", "ARRAY", "RELATION"]),
}
DEFAULTS = {
    "postgresql": ("TYPE", "TYPE", "ARRAY"),
    "mysql": ("INLINE", "JSON", "JSON"),
    "mssql": ("RELATION", "JSON", "JSON"),
    "oracle": ("RELATION", "JSON", "JSON"),
    "redshift": ("RELATION", "JSON", "JSON"),
    "delta": ("CHECK", "INLINE", "ARRAY"),
    "snowflake": ("CHECK", "JSON", "JSON"),
    "trino": ("CHECK", "JSON", "JSON"),
}
PREFIXED = ("mysql", "oracle")  # dialects without schemas
NO_FOREIGN = ("redshift", "delta", "snowflake")
NO_CHECK = ("delta", "snowflake")


def effective(opts):
    "Effective enumeration, structure and array mode."
    d = DEFAULTS[opts["dialect"]]
    return (opts.get("enum_mode") or d[0], opts.get("struct_mode") or d[1], opts.get("array_mode") or d[2])


@st.composite
def options(draw, dialects=RELATIONAL, **fixed):
    d = draw(st.sampled_from(dialects))
    e, s, a = MODES[d]
    o = {
        "dialect": d,
        "enum_mode": draw(st.sampled_from([None] + e)),
        "struct_mode": draw(st.sampled_from([None] + s)),
        "array_mode": draw(st.sampled_from([None] + a)),
        "foreign_constraints": draw(st.sampled_from([True, True, True, False])),
        "initialize_tables": draw(st.booleans()),
        "auto_default": draw(st.sampled_from([False, False, True])),
    }
    o.update(fixed)
    return o


# -------------------------------------------------------------------------------------------------------- generation

ENTITY_NAMES = ["Person", "Order", "Select", "Team", "Größe", "User", "Item", "XMLNode", "A", "Table1", "Audit__Log"]
STRUCT_NAMES = ["Point", "Address", "Money"]
ENUM_NAMES = ["Color", "Status", "Kind"]
EXT_NAMES = ["Country", "Tag"]
FIELD_NAMES = ["name", "order", "value", "userName", "größe", "select", "x1", "data", "group", "flag", "note", "id2", "uuid", "Desc", "created_at", "parent"]
NS_NAMES = ["app", "core", "my_ns", "sales"]
LABELS = ["active", "inactive", "deleted", "O'Reilly", "a b", "ÄÖ", "x,y", "(z)", "1", " x"]
DOCS = ["A thing.", "The user's name; never empty.", "Rate in % (per year).", 'Says "hi".', "größer", "Back\\slash."]


def simple_types(dialect, key=False):
    "Type descriptors of simple types a dialect supports."
    n = st.sampled_from([1, 2, 8, 64, 255])
    base = [
        st.sampled_from([["bool"], ["int"], ["int8"], ["int16"], ["int32"], ["int64"], ["float"], ["float32"], ["float64"], ["str"]]),
        st.sampled_from([["uint8"], ["uint16"], ["uint32"], ["uint64"]]),
        n.map(lambda k: ["max", k]),
        st.sampled_from([["decimal"], ["decimal", 10, 2], ["decimal", 5, 0]]),
        st.sampled_from([["datetime"], ["datetime", 3], ["date"], ["time"], ["uuid"]]),
        st.sampled_from([["ipv4"], ["ipv6"], ["ip"]]),
        st.sampled_from([["range", 0, 100], ["range", -5, 5], ["range", 1, 70000]]),
        st.sampled_from([["literal", ["one"]], ["literal", ["one", "three"]], ["litunion", ["unknown"], 20], ["litunion", ["unknown"], None]]),
    ]
    if dialect in ("postgresql", "trino"):
        base.append(st.just(["timedelta"]))
    return st.one_of(base)


def key_types():
    return st.sampled_from([("id", ["int"]), ("pk", ["int"]), ("pk", ["uuid"]), ("pk", ["max", 32]), ("id", ["int32"]), ("pk", ["int64"])])


def default_for(draw, t, opt=False):
    "A default value for a field of a type, or None."
    k = t[0]
    if k == "bool":
        return draw(st.booleans())
    if k in ("int", "int16", "int32", "int64"):
        return draw(st.sampled_from([0, 1, -1, 42, 32767]))
    if k == "int8":
        return draw(st.sampled_from([0, -1, 127]))
    if k == "range":
        return t[1]
    if k in ("float", "float32", "float64"):
        return ["float", draw(st.sampled_from(["0.0", "1.5", "-2.25"]))]
    if k in ("str", "max"):
        v = draw(st.sampled_from(["", "x", "it's", "a;b", "--", "ä"]))
        return v[: t[1]] if k == "max" else v
    if k == "decimal":
        return ["decimal", draw(st.sampled_from(["0", "1.50", "-3"]))]
    if k == "datetime":
        return ["datetime", draw(st.sampled_from(["1989-10-24 23:59:59", "2000-01-01 00:00:00", "1989-10-24 23:59:59+00:00"]))]
    return None


@st.composite
def field(draw, name, types, *, defaults=True, docs=True, unique=True):
    t = draw(types)
    f = {"name": name, "type": t}
    if draw(st.booleans()):
        f["opt"] = True
    if unique and t[0] in ("int", "max", "uuid", "int32") and draw(st.integers(0, 3)) == 0:
        f["unique"] = True
    if docs and draw(st.integers(0, 3)) == 0:
        f["doc"] = draw(st.sampled_from(DOCS))
    if defaults and draw(st.integers(0, 2)) == 0:
        d = default_for(draw, t)
        if d is not None:
            f["default"] = d
    return f


def order_fields(fields):
    "Fields without a default first."
    return [f for f in fields if f.get("default") is None and not f.get("default_none")] + [
        f for f in fields if f.get("default") is not None or f.get("default_none")
    ]


def namespaces(draw, n):
    pool = [None] + NS_NAMES
    return draw(st.permutations(pool))[:n]


@st.composite
def enum_def(draw, name, kind=None):
    kind = kind or draw(st.sampled_from(["str", "str", "str", "int"]))
    if kind == "int":
        vals = draw(st.lists(st.integers(0, 9), min_size=2, max_size=4, unique=True))
    else:
        vals = draw(st.lists(st.sampled_from(LABELS), min_size=2, max_size=4, unique=True))
    return {"name": name, "members": [[f"m{i}", v] for i, v in enumerate(vals)]}


@st.composite
def schemas(draw, opts, max_modules=3, max_entities=3, docs=True, defaults=True, min_entities=0, cycles=True):
    "A specification suitable for the options."
    dialect = opts["dialect"]
    em, sm, am = effective(opts)
    n = draw(st.integers(1, max_modules))
    ns = namespaces(draw, n)
    mods = [{"ns": ns[i], "enums": [], "structs": [], "entities": []} for i in range(n)]
    # names first, so that classes may refer to each other across modules
    for i, mod in enumerate(mods):
        names = draw(st.lists(st.sampled_from(ENTITY_NAMES), min_size=max(min_entities, 1 if i == 0 else 0), max_size=max_entities, unique=True))
        mod["entities"] = [{"name": x, "fields": []} for x in names]
        for x in draw(st.lists(st.sampled_from(ENUM_NAMES), max_size=2, unique=True)):
            mod["enums"].append(draw(enum_def(x)))
        for x in draw(st.lists(st.sampled_from(EXT_NAMES), max_size=1, unique=True)):
            mod["enums"].append({"name": x, "members": [["m0", draw(st.sampled_from(LABELS))]]})
        mod["structs"] = [{"name": x, "fields": []} for x in draw(st.lists(st.sampled_from(STRUCT_NAMES), max_size=3, unique=True))]
        for e in mod["entities"]:
            role, t = draw(key_types())
            e["fields"].append({"name": draw(st.sampled_from(["id", "id", "key", "Id"])), "type": t, "role": role})
    enums = [(i, e["name"]) for i, m in enumerate(mods) for e in m["enums"] if len(e["members"]) > 1]
    exts = [(i, e["name"]) for i, m in enumerate(mods) for e in m["enums"] if len(e["members"]) == 1]
    for i, mod in enumerate(mods):
        for k, s in enumerate(mod["structs"]):
            opts_t = [simple_types(dialect)]
            if enums and sm == "TYPE" and em in ("TYPE", "CHECK"):
                opts_t.append(st.sampled_from([["enum", *e] for e in enums]))
            # structures defined earlier
            prev = [["struct", i, x["name"]] for x in mod["structs"][:k]]
            prev += [["struct", j, x["name"]] for j in range(i) for x in mods[j]["structs"]]
            if prev:
                opts_t += [st.sampled_from(prev)] * (2 if k > 1 else 1)
            if am != "RELATION":
                opts_t.append(st.sampled_from([["list", ["int"]], ["list", ["str"]]]))
            names = draw(st.lists(st.sampled_from(FIELD_NAMES), min_size=1, max_size=3, unique=True))
            s["fields"] = [draw(field(x, st.one_of(opts_t), defaults=False, docs=docs, unique=False)) for x in names]
            if docs and draw(st.integers(0, 2)) == 0:
                s["doc"] = draw(st.sampled_from(DOCS))
    structs = [["struct", i, s["name"]] for i, m in enumerate(mods) for s in m["structs"]]
    ents = [(i, e["name"], e["fields"][0]["type"]) for i, m in enumerate(mods) for e in m["entities"]]
    for i, mod in enumerate(mods):
        for e in mod["entities"]:
            t = [simple_types(dialect), simple_types(dialect)]
            if enums:
                t.append(st.sampled_from([["enum", *x] for x in enums]))
                if am != "RELATION" or em == "RELATION":
                    t.append(st.sampled_from([[k, ["enum", *x]] for x in enums for k in ("list", "set")]))
            if exts:
                t.append(st.sampled_from([["extenum", *x] for x in exts]))
            if structs:
                t.append(st.sampled_from(structs))
                if am != "RELATION":
                    t.append(st.sampled_from([["list", s] for s in structs]))
            if am != "RELATION":
                t.append(st.sampled_from([["list", ["int"]], ["list", ["str"]], ["set", ["int"]], ["list", ["uuid"]]]))
            reach = [x for x in ents if cycles or x[0] <= i]
            if reach:
                t.append(st.sampled_from([["ref", x[0], x[1]] for x in reach]))
                t.append(st.sampled_from([[k, ["ref", x[0], x[1]]] for x in reach for k in ("list", "set")]))
                pairs = [[list(a[:2]), list(b[:2])] for a in reach for b in reach if a[:2] < b[:2] and a[2] == b[2]]
                if pairs:
                    t.append(st.sampled_from([["dref", p] for p in pairs]))
            key = e["fields"][0]["name"]
            names = draw(st.lists(st.sampled_from([x for x in FIELD_NAMES if x != key]), max_size=4, unique=True))
            e["fields"] += [draw(field(x, st.one_of(t), docs=docs, defaults=defaults)) for x in names]
            for f in e["fields"]:
                if defaults and f["type"][0] in ("enum", "extenum") and draw(st.integers(0, 2)) == 0:
                    f["default"] = member_default(draw, {"modules": mods}, i, f["type"])
            e["fields"] = order_fields(e["fields"])
            if docs and draw(st.integers(0, 2)) == 0:
                e["doc"] = draw(st.sampled_from(DOCS))
            if docs and draw(st.integers(0, 9)) == 0:
                e["doc"] = "First line.\n\nSecond paragraph."
    return {"modules": mods}


@st.composite
def twin_schemas(draw, opts, max_modules=3):
    "Schemas whose modules share class names."
    spec = draw(schemas(opts, max_modules=max_modules, max_entities=3, docs=False, defaults=False))
    spec = copy.deepcopy(spec)
    # rename classes of later modules after those of earlier ones
    for kind, tags in (("entities", ("ref", "dref")), ("structs", ("struct",)), ("enums", ("enum", "extenum"))):
        for i, mod in enumerate(spec["modules"]):
            if i == 0 or not draw(st.booleans()):
                continue
            source = spec["modules"][draw(st.integers(0, i - 1))][kind]
            if kind == "enums":
                source = [e for e in source if len(e["members"]) > 1]
            for c in mod[kind]:
                if not source or kind == "enums" and len(c["members"]) == 1:
                    continue
                new = draw(st.sampled_from(source))["name"]
                if any(x["name"] == new for k in ("entities", "structs", "enums") for x in mod[k]):
                    continue
                rename(spec, i, c["name"], new, tags)
                c["name"] = new
    return spec


def rename(spec, m, old, new, tags):
    def walk(t):
        if t[0] in ("list", "set"):
            walk(t[1])
        elif t[0] == "dref" and "dref" in tags:
            for r in t[1]:
                if r == [m, old]:
                    r[1] = new
        elif t[0] in tags and t[1] == m and t[2] == old:
            t[2] = new

    for mod in spec["modules"]:
        for c in mod["entities"] + mod["structs"]:
            for f in c["fields"]:
                # type descriptors may be shared
                f["type"] = copy.deepcopy(f["type"])
                walk(f["type"])


# ---------------------------------------------------------------------------------------- snapshots of schema models


def expected(catalog, dialect, initialize=False):
    "What a database should hold according to a schema model of the code under test, in the form of RefDB.snapshot()."
    import sqllex
    from pysqlsync.formation.object_types import CheckConstraint, ForeignConstraint, UniqueConstraint

    def ct(x):
        return sqllex.canon_text(str(x), dialect)

    def first_line(s):
        return s.split("\n")[0] or None if s else None

    def key(id):
        return [id.scope_id or "", id.local_id]

    schemas, typ, tables = {""}, {}, {}
    for ns in catalog.namespaces.values():
        n = ns.name.local_id
        schemas.add(n)
        for e in ns.enums.values():
            typ[".".join(key(e.name))] = {"enum": sorted(e.values)}
        for s in ns.structs.values():
            described = dialect != "trino"  # descriptions are not written at all
            typ[".".join(key(s.name))] = {
                "members": {m.name.local_id: ct(m.data_type) for m in s.members.values()},
                "member_comments": {m.name.local_id: m.description for m in s.members.values() if m.description and described},
                "comment": described and s.description or None,
            }
        for t in ns.tables.values():
            cols = {}
            for c in t.columns.values():
                default = c.default
                if default is not None and hasattr(c, "default_expr"):
                    default = c.default_expr
                comment = None
                if dialect == "delta":
                    default = None  # left out, for it needs a property of the table
                if dialect in ("postgresql", "redshift", "delta", "snowflake"):
                    comment = c.description or None
                elif dialect == "mysql":
                    comment = first_line(c.description)
                if not (dialect == "mysql" and hasattr(c.data_type, "values")):
                    ctype = ct(c.data_type)
                else:
                    ctype = "enum ( " + " , ".join(ct("'" + v.replace("\\", "\\\\").replace("'", "''") + "'") for v in c.data_type.values) + " )"
                cols[c.name.local_id] = {
                    "type": ctype,
                    "nullable": bool(c.nullable and not c.identity and c.name not in t.primary_key),
                    "default": ct(default) if default is not None else None,
                    "identity": bool(c.identity),
                    "comment": comment,
                }
            cons = {}
            for k in t.constraints.values():
                if isinstance(k, UniqueConstraint):
                    cons[k.name.local_id] = {"kind": "unique", "cols": [x.local_id for x in k.unique_columns]}
                elif isinstance(k, ForeignConstraint):
                    cons[k.name.local_id] = {
                        "kind": "fk",
                        "cols": [x.local_id for x in k.foreign_columns],
                        "ref": key(k.reference.table),
                        "refcols": [x.local_id for x in k.reference.columns],
                    }
                elif isinstance(k, CheckConstraint):
                    toks = sqllex.tokenize(k.condition, dialect)
                    cols_in = sorted({v for kk, v in toks if kk == "id"})
                    cons[k.name.local_id] = {"kind": "check", "cols": cols_in, "expr": sqllex.canon(toks)}
            comment = None
            if dialect in ("postgresql", "redshift", "delta", "snowflake"):
                comment = t.description or None
            elif dialect == "mysql":
                comment = first_line(t.description)
            tables[".".join(key(t.name))] = {
                "columns": cols,
                "pk_name": t.primary_key_constraint_id.local_id,
                "pk": [x.local_id for x in t.primary_key],
                "constraints": cons,
                "comment": comment,
            }
    return {"schemas": sorted(schemas), "types": typ, "tables": tables}


def diff(actual, wanted, path=""):
    "Differences between two nested structures, as lines."
    if isinstance(actual, dict) and isinstance(wanted, dict):
        out = []
        for k in sorted(set(actual) | set(wanted), key=str):
            p = f"{path}/{k}"
            if k not in wanted:
                out.append(f"{p}: unexpected {actual[k]!r}")
            elif k not in actual:
                out.append(f"{p}: missing {wanted[k]!r}")
            else:
                out += diff(actual[k], wanted[k], p)
        return out
    if actual != wanted:
        return [f"{path}: is {actual!r}, should be {wanted!r}"]
    return []
