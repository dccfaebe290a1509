"""
C33: field and class metadata are read as declared.

Annotations are built from a specification by wrapping a plain type in markers in a drawn order; what the library reads
is compared with the specification. Whole schemas are then read class by class.
"""

import collections
import dataclasses
import datetime
import decimal
import enum
import ipaddress
import sys
import types
import typing
import uuid
from typing import Annotated, Literal, Optional, Union

from hypothesis import strategies as st

import schema as S
from vh import Part, Result, Violation, check, check_equal

PROPERTY = "C33"
RULE = (
    "Part 'fields': the type is wrapped in at least two markers, or in one inside another layer. Part 'classes': at least one "
    "module is left out of the schema or imports a class, and there is a reference"
)
ASSUMPTIONS = [
    "identity is declared on non-optional fields (an identity column cannot hold NULL), and on the outside no further union is formed",
    "a primary key is marked outside of Identity, and is not optional",
]


class Hue(enum.Enum):
    red = "red"
    blue = "blue"


class Level(enum.Enum):
    low = 1
    high = 2


@dataclasses.dataclass
class Plain:
    x: int


@dataclasses.dataclass(frozen=True)
class Tag:
    text: str


BASES = {
    "bool": (bool, bool),
    "int": (int, int),
    "float": (float, float),
    "str": (str, str),
    "bytes": (bytes, bytes),
    "datetime": (datetime.datetime, datetime.datetime),
    "date": (datetime.date, datetime.date),
    "time": (datetime.time, datetime.time),
    "decimal": (decimal.Decimal, decimal.Decimal),
    "uuid": (uuid.UUID, uuid.UUID),
    "ipv4": (ipaddress.IPv4Address, ipaddress.IPv4Address),
    "ipv6": (ipaddress.IPv6Address, ipaddress.IPv6Address),
    "ip": (Union[ipaddress.IPv4Address, ipaddress.IPv6Address], Union[ipaddress.IPv4Address, ipaddress.IPv6Address]),
    "enum": (Hue, str),
    "dataclass": (Plain, dict),
    "list": (list[int], list),
    "set": (set[str], set),
    "dict": (dict[str, int], dict),
    "literal": (Literal["a", "b"], str),
    "intliteral": (Literal[1, 2], int),
    "openliteral": (Union[Literal["a"], str], str),
    "mixedliteral": (Literal["a", 1], None),
    "mixedunion": (Union[int, str], None),
    "timedelta": (datetime.timedelta, None),
}


@st.composite
def annotations(draw):
    base = draw(st.sampled_from(sorted(BASES)))
    layers = draw(st.lists(st.sampled_from(["unique", "optional", "note", "note2", "primary"]), max_size=5))
    if base in ("int", "str", "uuid") and draw(st.booleans()):
        layers = [x for x in layers if x != "optional"]
        layers.insert(draw(st.integers(0, len(layers))), "identity")
    if layers.count("optional") > 1:
        i = layers.index("optional")
        layers = [x for k, x in enumerate(layers) if x != "optional" or k == i]
    if "optional" in layers:
        layers = [x for x in layers if x != "primary"]
    if "identity" in layers:
        # an identity column is marked as a key on the outside
        i = layers.index("identity")
        layers = [x for x in layers[:i] if x != "primary"] + layers[i:]
    return {"base": base, "layers": layers, "pipe": draw(st.booleans())}


def build(spec):
    from pysqlsync.model.key_types import Identity, PrimaryKey, Unique

    t = BASES[spec["base"]][0]
    notes = []
    for n, layer in enumerate(spec["layers"]):
        if layer == "unique":
            t = Unique[t]
        elif layer == "primary":
            t = PrimaryKey[t]
        elif layer == "identity":
            t = Identity[t]
        elif layer == "optional":
            t = (t | None) if spec["pipe"] else Optional[t]
        else:
            # notes that are equal are distinct marks nevertheless
            note = Tag(f"n{n}") if layer == "note" else f"text {n}"
            notes.append(note)
            t = Annotated[t, note]
    return t, notes


def _run_fields(spec):
    from pysqlsync.formation.inspection import is_simple_type
    from pysqlsync.model import properties as P

    t, notes = build(spec)
    plain, tsv = BASES[spec["base"]]
    layers = spec["layers"]
    props = P.get_field_properties(t)
    check(props.plain_type == plain, lambda: f"plain type of {t} is {props.plain_type}, not {plain}")
    check_equal(props.nullable, "optional" in layers, f"nullable of {t}")
    check_equal(props.is_primary, "primary" in layers, f"primary key mark of {t}")
    check_equal(props.is_identity, "identity" in layers, f"identity mark of {t}")
    check_equal(props.is_unique, "unique" in layers, f"unique mark of {t}")
    check_equal(collections.Counter(map(repr, props.metadata)), collections.Counter(map(repr, notes)), f"annotations of {t}")
    rebuilt = props.field_type
    check(getattr(rebuilt, "__origin__", rebuilt) == plain if notes else rebuilt == plain, lambda: f"type of {t} without marks is {rebuilt}")
    again = P.get_field_properties(rebuilt)
    check(
        again.plain_type == plain and not (again.nullable or again.is_primary or again.is_identity or again.is_unique)
        and again.metadata == props.metadata,
        lambda: f"type of {t} without marks, {rebuilt}, reads as {again}",
    )
    # the marks that are on the outside are seen by the simple tests too
    outer = layers
    for wall in ("optional", "identity"):
        if wall in outer:
            outer = outer[outer.index(wall) + (wall == "optional"):]
    check_equal(P.is_primary_key_type(t), "primary" in outer, f"is_primary_key_type({t})")
    check_equal(P.is_identity_type(t), "identity" in outer, f"is_identity_type({t})")
    check_equal(P.is_unique_type(t), "unique" in outer, f"is_unique_type({t})")
    if tsv is None:
        if spec["base"] in ("mixedliteral", "mixedunion"):
            try:
                got = props.tsv_type
            except TypeError:
                got = None
            check(got is None, lambda: f"{plain} has values of several types, but text is read as {got}")
    else:
        check(props.tsv_type == tsv, lambda: f"text of {t} is read as {props.tsv_type}, not {tsv}")
    if "identity" not in layers:
        simple = spec["base"] in ("bool", "int", "float", "str", "decimal", "datetime", "date", "time", "timedelta", "uuid", "ipv4", "ipv6", "enum")
        check_equal(is_simple_type(t), simple, f"is_simple_type({t})")

    # as a member of classes
    cls = dataclasses.make_dataclass("Holder", [("first", int), ("member", t), ("last", Optional[str])])
    cp = P.get_class_properties(cls)
    check(cp.fields == (P.get_field_properties(int), props, P.get_field_properties(Optional[str])), lambda: f"properties of a class with {t}: {cp.fields}")
    if tsv is not None:
        check(cp.tsv_types == (int, tsv, str), lambda: f"types of text columns: {cp.tsv_types}")
    for f, want in ((P.get_primary_key_name, "member"), (P.get_primary_key_name_type, ("member", tsv))):
        if "primary" in outer and tsv is None:
            continue
        try:
            got = f(cls)
        except TypeError:
            got = None
        check(got == (want if "primary" in layers else None), lambda: f"{f.__name__} for a class with {t}: {got}")
    return Result(len(layers) > 1, tuple(sorted(set(layers))) + (spec["base"],))


@st.composite
def cases(draw):
    o = draw(S.options(("postgresql", "mssql", "mysql")))
    spec = draw(S.schemas(o, docs=False, defaults=draw(st.booleans()), min_entities=draw(st.integers(0, 2))))
    n = len(spec["modules"])
    return {
        "opts": o,
        "spec": spec,
        "include": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
        # classes bound to further names, in the same module or in another one
        "alias": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.integers(0, 9)).map(list), max_size=3)),
    }


def _run_classes(case):
    from pysqlsync.formation import inspection as I
    from pysqlsync.model import properties as P

    spec = case["spec"]
    with S.Build(spec) as b:
        imported = False
        for to, source, k in case["alias"]:
            ents = spec["modules"][source]["entities"] + spec["modules"][source]["structs"]
            if not ents:
                continue
            name = ents[k % len(ents)]["name"]
            if to == source:
                setattr(b.all_modules[to], "Alias" + name, b.cls(source, name))
            elif not hasattr(b.all_modules[to], name):
                setattr(b.all_modules[to], name, b.cls(source, name))
            imported = True
        include = [i for i, x in enumerate(case["include"]) if x]
        got = I.get_entity_types([b.all_modules[i] for i in include])
        want = {b.cls(i, e["name"]) for i in include for e in spec["modules"][i]["entities"]}
        check(set(got) == want, lambda: f"entity types of modules {include}: {got}")
        refs = 0
        marks = {}
        for i, mod in enumerate(spec["modules"]):
            for s in mod["structs"]:
                cls = b.cls(i, s["name"])
                check(I.is_struct_type(cls) and not I.is_entity_type(cls), lambda: f"{cls} is not seen as a structure")
                check(not I.dataclass_has_primary_key(cls), lambda: f"{cls} has a primary key")
                for f in (I.dataclass_primary_key_name, I.dataclass_primary_key_type, P.get_primary_key_name, P.get_primary_key_name_type):
                    try:
                        f(cls)
                    except TypeError:
                        continue
                    raise Violation(f"{f.__name__} finds a key in {cls}")
            for e in mod["enums"]:
                cls = b.cls(i, e["name"])
                check(not I.is_entity_type(cls) and not I.is_struct_type(cls), lambda: f"{cls} is seen as a class of records")
                check(I.is_simple_type(cls), lambda: f"{cls} is not seen as a simple type")
            for e in mod["entities"]:
                cls = b.cls(i, e["name"])
                check(I.is_entity_type(cls) and not I.is_struct_type(cls), lambda: f"{cls} is not seen as an entity")
                key = next(f for f in e["fields"] if f.get("role"))
                check_equal(I.dataclass_primary_key_name(cls), key["name"], f"key name of {cls}")
                check_equal(P.get_primary_key_name(cls), key["name"], f"key name of {cls}")
                ktype = marks[i, e["name"]] = eval_key(key["type"])
                check_equal(I.dataclass_primary_key_type(cls), ktype, f"key type of {cls}")
                base = getattr(ktype, "__origin__", ktype) if hasattr(ktype, "__metadata__") else ktype
                check_equal(P.get_primary_key_name_type(cls), (key["name"], base), f"key of {cls}")
        for i, mod in enumerate(spec["modules"]):
            for e in mod["entities"]:
                cls = b.cls(i, e["name"])
                hints = {f.name: f.type for f in dataclasses.fields(cls)}
                for f in e["fields"]:
                    kind = f["type"][0]
                    if kind in ("ref", "dref"):
                        refs += 1
                        target = f["type"][1:] if kind == "ref" else f["type"][1][0]
                        k = marks[tuple(target)]
                        got = I.reference_to_key(hints[f["name"]], cls)
                        check_equal(got, Optional[k] if f.get("opt") else k, f"key behind {cls}.{f['name']}: {hints[f['name']]}")
                        plain = b.cls(*f["type"][1:]) if kind == "ref" else Union[tuple(b.cls(*x) for x in f["type"][1])]
                        check(I.is_reference_type(plain, cls), lambda: f"{plain} is not seen as a reference")
                        for mixed in (Union[plain, int], Union[Plain, plain]):
                            check(not I.is_reference_type(mixed, cls), lambda: f"{mixed} is seen as a reference")
                            check_equal(I.reference_to_key(mixed, cls), mixed, f"{mixed} in {cls}")
                    elif f.get("role") is None and kind in ("int", "str", "bool", "uuid", "max", "datetime", "literal", "ip"):
                        t = dataclasses_type(cls, f["name"])
                        got = I.reference_to_key(t, cls)
                        check(same_props(P, got, t, f), lambda: f"{cls}.{f['name']} of type {t} has become {got}")
                        plain = P.get_field_properties(t).plain_type
                        check(not I.is_reference_type(plain, cls), lambda: f"{t} is seen as a reference")
    return Result(bool(refs) and (imported or not all(case["include"])), ("imported",) if imported else ())


def dataclasses_type(cls, name):
    t = next(f.type for f in dataclasses.fields(cls) if f.name == name)
    if isinstance(t, str):
        t = typing.get_type_hints(cls, include_extras=True)[name]
    return t


def same_props(P, got, t, f):
    "Marks and annotations outside of an optional type do not matter for the type of the key."
    g, w = P.get_field_properties(got), P.get_field_properties(t)
    return g.plain_type == w.plain_type and g.nullable == w.nullable == bool(f.get("opt"))


def eval_key(t):
    "The type of a key as declared."
    namespace = vars(types.ModuleType("key"))
    exec(S.render_module({"modules": [{"ns": None, "enums": [], "structs": [], "entities": []}]}, 0, S.Namer("k")), namespace)
    return eval(S.texpr(t, 0, S.Namer("k"))[0], namespace)


PARTS = [
    Part(
        "fields", annotations, _run_fields, quick=3000, thorough=60000,
        corpus=[{"base": b, "layers": l, "pipe": False} for b in sorted(BASES) for l in ([], ["optional"], ["unique", "optional", "note"])],
    ),
    Part("classes", cases, _run_classes, quick=500, thorough=12000),
]
