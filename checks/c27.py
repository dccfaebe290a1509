"""
C27: derived data classes keep fields, order, types and defaults.

Data classes are generated; the entity class and the flattened class made from them are compared with what follows from
the specification.
"""

import dataclasses
import sys
import typing

from hypothesis import strategies as st

import schema as S
from vh import Part, Result, check, check_equal

PROPERTY = "C27"
RULE = "the class has at least three fields, and a default, a nested structure or a description"
ASSUMPTIONS = [
    "the class turned into an entity has no primary key of its own",
    "the chosen key field has no default unless all fields have one (Python requires fields with a default to come last)",
    "flattened structures are not optional, and are not given a default as a whole",
]
NAMES = ["alpha", "beta", "Gamma", "delta_e", "x", "größe", "value", "name"]
DOCS = [None, None, "Some text.", "It's a \"test\".", "With 100% of : colons."]
SUMMARY = [None, "A summary.", "A summary.\n\nSome further lines\nof text."]


@st.composite
def structs(draw, depth=2):
    "A chain of structures, each of which may refer to earlier ones; the last is the one to transform."
    out = []
    n = draw(st.integers(1, depth + 1))
    for i in range(n):
        fields = []
        for name in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True)):
            f = {"name": name}
            if i and draw(st.integers(0, 2)) == 0:
                f["type"] = ["struct", 0, f"S{draw(st.integers(0, i - 1))}"]
            else:
                f["type"] = draw(S.simple_types("postgresql"))
                if draw(st.integers(0, 4)) == 0:
                    f["type"] = [draw(st.sampled_from(["list", "set"])), f["type"]]
                if draw(st.booleans()):
                    f["opt"] = True
                    if draw(st.booleans()):
                        f["default_none"] = True
                if not f.get("default_none") and draw(st.integers(0, 2)) == 0:
                    d = S.default_for(draw, f["type"])
                    if d is not None:
                        f["default"] = d
                    elif f["type"][0] in ("list", "set") and not f.get("opt"):
                        f["factory"] = True
                if draw(st.integers(0, 5)) == 0:
                    f["unique"] = True
            doc = draw(st.sampled_from(DOCS))
            if doc is not None:
                f["doc"] = doc
            fields.append(f)
        late = [f for f in fields if f.get("default") is not None or f.get("default_none") or f.get("factory")]
        out.append({"name": f"S{i}", "doc": draw(st.sampled_from(SUMMARY)), "fields": [f for f in fields if f not in late] + late})
    return out


class Rendered:
    "Executes structures in a synthetic module."

    def __init__(self, classes):
        self.classes = classes

    def __enter__(self):
        import types as t

        spec = {"modules": [{"ns": None, "enums": [], "structs": self.classes, "entities": []}]}
        src = S.render_module(spec, 0, S.Namer("vt"))
        lines = ["from dataclasses import field"]
        for line in src.splitlines():
            lines.append(line)
        text = "\n".join(lines) + "\n"
        for c in self.classes:
            head, _, tail = text.partition(f"class {c['name']}:\n")
            for f in c["fields"]:
                if f.get("factory"):
                    expr = S.fexpr(f, 0, S.Namer("vt"))
                    line = f"    {f['name']}: {expr}\n"
                    assert line in tail
                    tail = tail.replace(line, f"    {f['name']}: {expr} = field(default_factory={f['type'][0]})\n", 1)
            text = head + f"class {c['name']}:\n" + tail
        self.module = t.ModuleType("vt0")
        sys.modules["vt0"] = self.module
        exec(compile(text, "<vt0>", "exec"), vars(self.module))
        return self.module

    def __exit__(self, *exc):
        sys.modules.pop("vt0", None)


def described(cls):
    "Fields of a class: (name, type, default, factory)."
    hints = typing.get_type_hints(cls, include_extras=True)
    return [(f.name, hints[f.name], f.default, f.default_factory) for f in dataclasses.fields(cls)]


def split_key(t):
    "A type without the marker for primary keys, and whether it has one."
    from pysqlsync.model.key_types import PrimaryKeyTag

    if typing.get_origin(t) is typing.Annotated:
        base, *meta = typing.get_args(t)
        rest = [m for m in meta if not isinstance(m, PrimaryKeyTag)]
        return (typing.Annotated[(base, *rest)] if rest else base), len(rest) < len(meta)
    return t, False


@st.composite
def entity_cases(draw):
    classes = draw(structs())
    fields = classes[-1]["fields"]
    plain = [f["name"] for f in fields if f.get("default") is None and not f.get("default_none") and not f.get("factory")] or [f["name"] for f in fields]
    key = draw(st.sampled_from(plain + plain + plain + ["nosuch", "", "Alpha"]))
    return {"classes": classes, "key": key}


def run_entity(case):
    from pysqlsync.formation.inspection import is_entity_type
    from pysqlsync.model.entity_types import make_entity

    with Rendered(case["classes"]) as module:
        name = case["classes"][-1]["name"]
        cls = getattr(module, name)
        before, doc = described(cls), cls.__doc__
        known = case["key"] in [b[0] for b in before]
        try:
            entity = make_entity(cls, case["key"])
        except ValueError:
            check(not known, f"key field {case['key']!r} has been refused")
            check(getattr(module, name) is cls and described(cls) == before, "class has been changed although the key was refused")
            return Result(True, ["unknown key"])
        check(known, f"unknown key field {case['key']!r} has been accepted")
        check_equal((entity.__name__, entity.__module__), (name, module.__name__), "name of the entity class")
        check(getattr(module, name) is entity, "the entity class does not replace the class in its module")
        check(is_entity_type(entity), "not an entity type")
        after = described(entity)
        check_equal(sorted(a[0] for a in after), sorted(b[0] for b in before), "field names")
        check_equal([a[0] for a in after if a[0] != case["key"]], [b[0] for b in before if b[0] != case["key"]], "order of fields other than the key")
        old = {b[0]: b[1:] for b in before}
        for n, t, d, factory in after:
            plain, is_key = split_key(t)
            check_equal(is_key, n == case["key"], f"whether {n} is a primary key")
            check_equal(plain, old[n][0], f"type of {n}")
            check_equal((d, factory), old[n][1:], f"default of {n}")
        if case["classes"][-1]["doc"] or any(f.get("doc") for f in case["classes"][-1]["fields"]):
            check_equal(entity.__doc__, doc, "description")
        else:
            from strong_typing.docstring import has_docstring

            check(not has_docstring(entity), lambda: f"class without a description is described as {entity.__doc__!r}")
        # objects of either class take the same arguments
        values = {b[0]: object() for b in before if b[2] is dataclasses.MISSING and b[3] is dataclasses.MISSING}
        old_obj, new_obj = cls(**values), entity(**values)
        check_equal({n: getattr(new_obj, n) for n in old}, {n: getattr(old_obj, n) for n in old}, "values of an object")
        some = any(f.get("default") is not None or f.get("default_none") or f.get("factory") or f.get("doc") for f in case["classes"][-1]["fields"])
    return Result(len(before) >= 3 and some, [f"{len(before)} fields"])


def flattened(classes, cls, module, prefix=""):
    "What flattening should yield: (name, type, default, description)."
    by_name = {c["name"]: c for c in classes}
    hints = typing.get_type_hints(getattr(module, cls["name"]), include_extras=True)
    out = []
    for f, real in zip(cls["fields"], dataclasses.fields(getattr(module, cls["name"]))):
        if f["type"][0] == "struct":
            out += flattened(classes, by_name[f["type"][2]], module, f"{prefix}{f['name']}__")
        else:
            out.append((prefix + f["name"], hints[f["name"]], real.default, f.get("doc")))
    return out


def run_flatten(case):
    from strong_typing.docstring import parse_type

    from pysqlsync.util.dataclasses import flatten_dataclass, make_dataclass

    classes = case["classes"]
    with Rendered(classes) as module:
        cls = getattr(module, classes[-1]["name"])
        before = described(cls)
        docs = parse_type(cls)
        wanted = flattened(classes, classes[-1], module)
        fields, docstring = flatten_dataclass(cls)
        check_equal([(f.name, f.type, f.default) for f in fields], [w[:3] for w in wanted], "flattened fields")
        check_equal({n: p.description for n, p in docstring.params.items() if n in {w[0] for w in wanted}}, {w[0]: w[3] for w in wanted if w[3] is not None}, "descriptions of flattened fields")
        check_equal((docstring.short_description, docstring.long_description), (docs.short_description, docs.long_description), "description of the class")
        check(described(cls) == before and getattr(module, cls.__name__) is cls, "the source class has been changed")
        # the class made of the flattened fields; fields with a default come last
        late = [f for f in fields if f.default is not dataclasses.MISSING]
        fields = [f for f in fields if f not in late] + late
        flat = make_dataclass("Flat", fields, module=module, docstring=docstring)
        check(module.Flat is flat and flat.__module__ == module.__name__, "the class made has not been added to the module")
        want = {w[0]: w for w in wanted}
        check_equal([(n, t, d) for n, t, d, _ in described(flat)], [want[f.name][:3] for f in fields], "fields of the class made")
        again = parse_type(flat)
        check_equal({n: p.description for n, p in again.params.items()}, {w[0]: w[3] for w in wanted if w[3] is not None}, "descriptions in the class made")
        if docs.short_description:
            check_equal(again.short_description, docs.short_description, "description of the class made")
    nested = any(f["type"][0] == "struct" for f in classes[-1]["fields"])
    return Result(nested and len(wanted) >= 3, ["nested" if nested else "plain", f"{len(wanted)} fields"])


PARTS = [
    Part("entity", entity_cases, run_entity, quick=1200, thorough=20000),
    Part("flatten", lambda: structs().map(lambda c: {"classes": c}), run_flatten, quick=1200, thorough=20000),
]
