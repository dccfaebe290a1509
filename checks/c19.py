"""
C19: generated Python code executes and redefines the same types.

Modules of data classes and enumerations are generated, turned into source code by the tool, and the source is executed
in a new module; the classes of both modules are compared by introspection. The code of a single class is executed in a
module that already has everything else.
"""

import dataclasses
import datetime
import decimal
import enum
import sys
import types
import typing

from hypothesis import strategies as st

import schema as S
from vh import Part, Result, check, check_equal

PROPERTY = "C19"
RULE = "the module has a data class with a default value, a description, or a field type other than a plain built-in type"
ASSUMPTIONS = [
    "field types refer to classes in the same module",
    "enumerations derive from enum.Enum and have neither aliases nor methods; data classes have no methods",
    "default values are of built-in or standard library types or enumeration members, and default factories are list, set or dict",
    "a description is compared with its white space normalised, as the tool wraps lines",
]

TYPES = st.one_of(
    S.simple_types("postgresql"),
    st.sampled_from([["timedelta"], ["bytes"], ["storage", 4, True], ["storage", 2, False], ["time", 3], ["float", 8], ["length", 1, 8], ["length", 3, None], ["datetime", 6]]),
    st.lists(st.sampled_from(["a", "it's", 'say "x"', "back\\slash", "\n", "ä"]), min_size=1, max_size=3, unique=True).map(lambda v: ["literal", v]),
    st.sampled_from([["intunion", ["int8", "int16"]], ["intunion", ["int16", "uint32"]]]),
)
KNOWN = st.sampled_from(
    [["enum", 0, "Color"], ["enum", 0, "Level"], ["extenum", 0, "Country"], ["struct", 0, "Point"], ["struct", 0, "Zone"], ["ref", 0, "Alpha"], ["ref", 0, "Main"], ["dref", [[0, "Alpha"], [0, "Zulu"]]]]
)
TEXT = st.one_of(
    st.sampled_from(["", "x", "it's", 'say "hi"', '"""', "'''", "back\\slash", "tab\there", "new\nline", "\\n", "ä", "{x}", "%s", "a" * 200, "\\"]),
    st.text(max_size=12),
)
# descriptions: single spaces, no line that looks like a parameter
WORD = st.one_of(st.sampled_from(["The", "user's", "name;", '"quoted"', "back\\slash", '"""', "'''", "\\n", "größe", "{x}", "x" * 60, "100%", "a:b", "-", "#1"]), st.text("abc\\\"'", min_size=1, max_size=5))
DOC = st.lists(WORD, min_size=1, max_size=30).map(" ".join).filter(lambda s: not s.startswith(":"))
NAMES = ["name", "order", "value", "userName", "größe", "x1", "flag", "match", "_hidden", "type", "field"]


def default_for(draw, t):
    "Expression for a default value of a type."
    k = t[0]
    if k in ("str", "max", "litunion", "extenum"):
        return draw(TEXT).__repr__()
    if k == "bool":
        return draw(st.sampled_from(["True", "False"]))
    if k in ("int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "range", "storage", "intunion"):
        return repr(draw(st.integers(-(2**63), 2**63)))
    if k in ("float", "float32", "float64"):
        return draw(st.sampled_from(["0.0", "-1.5", "1e300", "float('inf')", "float('-inf')", "0.1"]))
    if k == "decimal":
        return f"decimal.Decimal({draw(st.sampled_from(['0', '1.50', '-3', '1E+3']))!r})"
    if k == "datetime":
        return draw(st.sampled_from(["datetime.datetime(2020, 1, 2, 3, 4, 5)", "datetime.datetime(2020, 1, 2, 3, 4, 5, 678, tzinfo=datetime.timezone.utc)", "datetime.datetime.min"]))
    if k == "date":
        return draw(st.sampled_from(["datetime.date(2020, 1, 2)", "datetime.date.max"]))
    if k == "time":
        return draw(st.sampled_from(["datetime.time(1, 2, 3)", "datetime.time(1, 2, 3, 4, tzinfo=datetime.timezone.utc)", "datetime.time(0, tzinfo=datetime.timezone(datetime.timedelta(hours=1)))"]))
    if k == "timedelta":
        return draw(st.sampled_from(["datetime.timedelta(days=1)", "datetime.timedelta(0)", "datetime.timedelta(seconds=-1)"]))
    if k == "uuid":
        return "uuid.UUID('f81d4fae-7dec-11d0-a765-00a0c91e6bf6')"
    if k == "ipv4":
        return "ipaddress.IPv4Address('192.0.2.1')"
    if k in ("ipv6", "ip"):
        return "ipaddress.IPv6Address('2001:db8::1')"
    if k == "literal":
        return repr(draw(st.sampled_from(t[1])))
    if k == "bytes":
        return draw(st.sampled_from(["b''", "b'a\\x00'"]))
    if k == "enum":
        return f"{t[2]}.m{draw(st.integers(0, 1))}"
    if k in ("list", "set"):
        return f"dataclasses.field(default_factory={k})"
    return None


@st.composite
def fields(draw, max_size=5):
    out = []
    for name in draw(st.lists(st.sampled_from(NAMES), min_size=0, max_size=max_size, unique=True)):
        t = draw(st.one_of(TYPES, KNOWN))
        if t[0] != "dref" and draw(st.integers(0, 4)) == 0:
            t = [draw(st.sampled_from(["list", "set"])), t]
        f = {"name": name, "type": t}
        if draw(st.booleans()):
            f["opt"] = True
        elif t[0] in ("int", "max", "uuid", "int32") and draw(st.integers(0, 2)) == 0:
            f["unique"] = True
        if draw(st.integers(0, 2)) == 0:
            f["doc"] = draw(DOC)
        if draw(st.integers(0, 2)) == 0:
            e = default_for(draw, t)
            if f.get("opt") and draw(st.integers(0, 2)) == 0:
                f["default_none"] = True
            elif e is not None and f["name"] != "field":
                f["default"] = ["expr", e]
        elif f.get("opt") and draw(st.integers(0, 3)) == 0:
            f["default_none"] = True
        out.append(f)
    return out


@st.composite
def cases(draw):
    docs = st.one_of(st.none(), DOC, st.tuples(DOC, DOC).map("\n\n".join))

    def cls(name, key=None):
        # a structure is declared before it is used
        later = {"Point": ("Point", "Zone"), "Zone": ("Zone",)}.get(name, ())
        fs = [f for f in draw(fields()) if not any(t[0] == "struct" and t[2] in later for t in (f["type"], f["type"][-1]) if isinstance(t, list) and len(t) == 3)]
        if key is not None:
            fs.append(key)
        c = {"name": name, "fields": S.order_fields(fs)}
        d = draw(docs)
        if d is not None:
            c["doc"] = d
        return c

    role, key = draw(S.key_types())
    values = draw(st.one_of(st.lists(TEXT, min_size=2, max_size=4, unique=True), st.lists(st.integers(-5, 99), min_size=2, max_size=4, unique=True)))
    mod = {
        "ns": None,
        "enums": [
            {"name": "Color", "members": [[f"m{i}", v] for i, v in enumerate(values)]},
            draw(S.enum_def("Level", "int")),
            {"name": "Country", "members": [["m0", "x"]]},
        ],
        "structs": [cls("Point"), cls("Zone")],
        "entities": [
            cls("Alpha", {"name": "id", "type": ["int"], "role": "pk"}),
            cls("Main", {"name": "id", "type": key, "role": role}),
            cls("Zulu", {"name": "id", "type": ["int"], "role": "pk"}),
        ],
    }
    return {
        "spec": {"modules": [mod]},
        "enum_doc": draw(st.one_of(st.none(), TEXT)),
        "member_doc": draw(st.one_of(st.none(), TEXT.filter(bool))),
        "var": draw(st.one_of(st.none(), TEXT, st.integers())),
        "single": draw(st.sampled_from([None, "Color", "Level", "Point", "Zone", "Alpha", "Main", "Zulu"])),
    }


def normal(t, own):
    "A comparable form of a type, in which classes of the module are represented by their names."
    if isinstance(t, type) and typing.get_origin(t) is None:
        return ("class", t.__name__) if t in own else ("type", t.__module__, t.__qualname__)
    if t is None or t is Ellipsis:
        return t
    if typing.get_origin(t) is typing.Annotated:
        return ("annotated", normal(t.__origin__, own), tuple(sorted((type(m).__module__, type(m).__qualname__, repr(m)) for m in t.__metadata__)))
    origin = typing.get_origin(t)
    if origin is typing.Literal:
        return ("literal", tuple(repr(a) for a in typing.get_args(t)))
    if origin is typing.Union:
        return ("union", tuple(normal(a, own) for a in typing.get_args(t)))
    if origin is not None:
        return (origin.__name__, tuple(normal(a, own) for a in typing.get_args(t)))
    return ("other", repr(t))


def value(v, own):
    "A comparable form of a default value."
    if isinstance(v, enum.Enum):
        return ("member", type(v).__name__, v.name)
    if v is dataclasses.MISSING:
        return "missing"
    return (type(v).__name__, repr(v))


def description(doc):
    "Words of a doc-string, paragraph by paragraph and parameter by parameter."
    from strong_typing.docstring import parse_text

    if not doc:
        return None
    d = parse_text(doc)
    return tuple((s or "").split() for s in (d.short_description, d.long_description)), {n: p.description.split() for n, p in d.params.items()}


def documented(cls):
    "The description of a class, unless it is the one that is produced for every data class."
    from strong_typing.docstring import has_docstring

    return description(cls.__doc__) if dataclasses.is_dataclass(cls) and has_docstring(cls) else None


def describe(module, cls):
    own = {c for c in vars(module).values() if isinstance(c, type) and c.__module__ == module.__name__}
    if issubclass(cls, enum.Enum):
        return {"members": [(e.name, type(e.value).__name__, e.value) for e in cls], "doc": cls.__doc__ or None, "member_docs": [e.__doc__ or None for e in cls]}
    hints = typing.get_type_hints(cls, vars(module), include_extras=True)
    fs = dataclasses.fields(cls)
    names = {f.name for f in fs}
    return {
        "fields": [f.name for f in fs],
        "types": {f.name: normal(hints[f.name], own) for f in fs},
        "defaults": {f.name: value(f.default, own) for f in fs},
        "factories": {f.name: f.default_factory for f in fs},
        "doc": documented(cls),
        "variables": {n: v for n, v in vars(cls).items() if not n.startswith("__") and n not in names},
    }


def run(case):
    import pysqlsync.python_types as P

    with S.Build(case["spec"]) as b:
        module = b.all_modules[0]
        if case["enum_doc"] is not None:
            b.cls(0, "Color").__doc__ = case["enum_doc"]
        if case["member_doc"] is not None:
            b.cls(0, "Color").m0.__doc__ = case["member_doc"]
        if case["var"] is not None:
            b.cls(0, "Main").some_variable = case["var"]
        classes = {c.__name__: c for c in vars(module).values() if isinstance(c, type) and c.__module__ == module.__name__}
        before = {n: describe(module, c) for n, c in classes.items()}
        other = types.ModuleType("vm_code")
        sys.modules[other.__name__] = other
        try:
            if case["single"] is None:
                code = P.module_to_code(module)
            else:
                cls = classes[case["single"]]
                code = "from __future__ import annotations\n" + (P.enum_class_to_code(cls) if issubclass(cls, enum.Enum) else P.dataclass_to_code(cls))
                # everything that the code of one class may rely on
                full = P.module_to_code(module)
                execute(full, other, "module")
                check_equal(code.count("class " + case["single"]), 1, "number of classes")
            execute(code, other, case["single"] or "module")
            after = {c.__name__: c for c in vars(other).values() if isinstance(c, type) and c.__module__ == other.__name__}
            check_equal(sorted(after), sorted(before), "names of classes")
            for n in before if case["single"] is None else [case["single"]]:
                d = describe(other, after[n])
                for k in before[n]:
                    check_equal(d[k], before[n][k], f"{k} of {n}")
        finally:
            del sys.modules[other.__name__]
        check({n: describe(module, c) for n, c in classes.items()} == before, "a class has been changed")
    fs = [f for kind in ("structs", "entities") for c in case["spec"]["modules"][0][kind] for f in c["fields"]]
    some = any(f.get("default") or f.get("doc") or f["type"][0] not in ("bool", "int", "str", "float") for f in fs)
    return Result(some, sorted({f["type"][0] for f in fs}) + [f"single {case['single']}" if case["single"] else "module"])


def execute(code, module, what):
    try:
        compiled = compile(code, f"<{what}>", "exec", dont_inherit=True)
    except SyntaxError as e:
        check(False, f"code of {what} is not valid: {e}\n{code}")
    try:
        exec(compiled, vars(module))
    except Exception as e:
        check(False, f"code of {what} does not execute: {e!r}\n{code}")


@st.composite
def logged_cases(draw):
    o = draw(S.options(S.ALL))
    return {"opts": o, "spec": draw(S.schemas(o))}


def run_logged(case):
    "The code of the classes is part of the debug log of a generator."
    import logging

    import pysqlsync.base

    log = []

    class Handler(logging.Handler):
        def emit(self, record):
            log.append(record.getMessage())

    with S.Build(case["spec"]) as b:
        plain = S.make_generator(case["opts"], b).create(modules=b.modules)
        logger = pysqlsync.base.LOGGER
        handler = Handler()
        saved = logger.level, logger.propagate
        logger.addHandler(handler)
        logger.setLevel(logging.DEBUG)
        logger.propagate = False
        logging.disable(logging.NOTSET)
        try:
            logged = S.make_generator(case["opts"], b).create(modules=b.modules)
            check(logged == plain, lambda: f"statement depends on the level of logging: {logged}")
            g = S.make_generator(case["opts"], b)
            g.create(tables=b.entities)
        finally:
            logging.disable(logging.CRITICAL)
            logger.removeHandler(handler)
            logger.setLevel(saved[0])
            logger.propagate = saved[1]
        names = [e["name"] for m in case["spec"]["modules"] for e in m["entities"]]
        for n in names:
            check(any(f"class {n}:" in x for x in log), lambda: f"class {n} is not in the log")
    return Result(len(case["spec"]["modules"]) > 1, [case["opts"]["dialect"]])


PARTS = [
    Part("code", cases, run, quick=1200, thorough=30000),
    Part("logged", logged_cases, run_logged, quick=300, thorough=6000),
]
