"C24: the dialect registry behaves like a map."

import importlib
import sys

from hypothesis import strategies as st

import pysqlsync.factory as factory
from pysqlsync.base import BaseEngine, GeneratorOptions
from pysqlsync.connection import ConnectionParameters
from pysqlsync.factory import get_dialect, register_dialect, unregister_dialect
from vh import Part, Result, Violation, check

PROPERTY = "C24"
RULE = (
    "Part 'history': a sequence of up to 25 register/unregister/lookup/use operations over a small pool of confusable names "
    "(including bundled ones), compared with a dictionary after every step. Part 'missing': a random subset of database drivers is made "
    "unavailable, discovery runs again, and every dialect is looked up and used. Non-trivial: the history re-uses a name "
    "after a refused or repeated operation / the subset is not empty."
)
ASSUMPTIONS = ["a driver is made unavailable by making its import raise ModuleNotFoundError, as for a package that is not installed"]

BUNDLED = ["delta", "mssql", "mysql", "oracle", "postgresql", "redshift", "snowflake", "trino"]
NAMES = ["mysql", "MySQL", "mysql ", "", "x", "X", "x1", "postgresql", "postgres", "test", "é", "mssql"]


class DummyEngine(BaseEngine):
    def __init__(self, ident, reported):
        self.ident = ident
        self.reported = reported

    @property
    def name(self):
        return self.reported

    def get_generator_type(self):
        raise NotImplementedError

    def get_connection_type(self):
        raise NotImplementedError

    def get_explorer_type(self):
        raise NotImplementedError


def _history():
    op = st.tuples(
        st.sampled_from(["register", "register", "unregister", "lookup", "lookup", "register_same"]),
        st.sampled_from(NAMES),
        st.sampled_from(NAMES),
    ).map(list)
    return st.fixed_dictionaries({"ops": st.lists(op, min_size=1, max_size=25)})


def _check_all(model):
    for name in set(NAMES) | set(BUNDLED):
        try:
            engine = get_dialect(name)
        except ValueError:
            engine = None
        if model.get(name) is not engine:
            raise Violation(f"lookup of {name!r} gives {engine!r}; expected {model.get(name)!r}")


def _run_history(spec):
    model = {}
    for name in set(NAMES) | set(BUNDLED):
        try:
            model[name] = get_dialect(name)
        except ValueError:
            pass
    initial = dict(model)
    created = []
    refused = False
    interesting = False
    try:
        for i, (op, name, other) in enumerate(spec["ops"]):
            if op in ("register", "register_same"):
                if op == "register_same" and created:
                    engine = created[-1]  # one engine may be registered under several names
                else:
                    engine = DummyEngine(i, other)
                    created.append(engine)
                try:
                    register_dialect(name, engine)
                except ValueError:
                    check(name in model, f"registering {name!r} was refused although the name is free")
                    refused = True
                else:
                    check(name not in model, f"registering {name!r} was accepted although the name is taken")
                    model[name] = engine
                    interesting = interesting or refused
            elif op == "unregister":
                try:
                    unregister_dialect(name)
                except (KeyError, ValueError):
                    check(name not in model, f"unregistering {name!r} failed although it is registered")
                    refused = True
                else:
                    check(name in model, f"unregistering {name!r} succeeded although it is not registered")
                    del model[name]
                    interesting = True
            else:
                try:
                    engine = get_dialect(name)
                except ValueError:
                    check(name not in model, f"lookup of {name!r} failed although it is registered")
                else:
                    check(name in model and engine is model[name], f"lookup of {name!r} gives {engine!r}")
            _check_all(model)
    finally:
        for name in set(NAMES) | set(BUNDLED):
            try:
                unregister_dialect(name)
            except (KeyError, ValueError):
                pass
        for name, engine in initial.items():
            register_dialect(name, engine)
    return Result(nontrivial=interesting, labels=("refused",) if refused else ())


DRIVERS = {
    "mssql": ["pyodbc"],
    "mysql": ["aiomysql", "cryptography"],
    "oracle": ["oracledb"],
    "postgresql": ["asyncpg"],
    "redshift": ["redshift_connector"],
    "snowflake": ["snowflake"],
    "trino": ["aiotrino"],
}


def _missing():
    return st.fixed_dictionaries(
        {
            "missing": st.lists(st.sampled_from(sorted({d for v in DRIVERS.values() for d in v})), unique=True, max_size=8),
            "params": st.booleans(),
        }
    )


def _run_missing(spec):
    missing = set(spec["missing"])
    originals = {n: get_dialect(n) for n in BUNDLED + ["test"]}
    saved = {}
    for name in list(sys.modules):
        if name.split(".")[0] in missing or (name.startswith("pysqlsync.dialect.") and name.endswith(".dependency")):
            saved[name] = sys.modules.pop(name)
    for name in missing:
        sys.modules[name] = None  # type: ignore[assignment]
    try:
        for n in originals:
            unregister_dialect(n)
        factory.discover_dialects()
        options = GeneratorOptions()
        for n in BUNDLED + ["test"]:
            engine = get_dialect(n)  # a dialect that cannot be used is nonetheless listed
            check(engine.name == n, f"dialect {n!r} reports the name {engine.name!r}")
            gone = ["module_not_found"] if n == "test" else [d for d in DRIVERS.get(n, []) if d in missing]
            if not gone:
                check(type(engine) is type(originals[n]), f"{n!r} is served by {type(engine).__name__}")
                engine.create_generator(options)
                continue
            params = ConnectionParameters(host="localhost") if spec["params"] else ConnectionParameters()
            for what, fn in (
                ("create_generator", lambda: engine.create_generator(options)),
                ("create_generator without options", lambda: engine.create_generator()),
                ("create_connection", lambda: engine.create_connection(params)),
                ("create_connection with options", lambda: engine.create_connection(params, options)),
                ("create_explorer", lambda: engine.create_explorer(None)),  # type: ignore[arg-type]
                ("get_generator_type", lambda: engine.get_generator_type()),
                ("get_connection_type", lambda: engine.get_connection_type()),
                ("get_explorer_type", lambda: engine.get_explorer_type()),
            ):
                try:
                    fn()
                except RuntimeError as e:
                    text = str(e)
                    check(
                        any(g in text for g in gone) and f"pysqlsync[{n}]" in text,
                        f"{n}.{what}: message does not name the missing dependency {gone}: {text!r}",
                    )
                    check(
                        not any(d in text for ds in DRIVERS.values() for d in ds if d not in gone and d != n),
                        f"{n}.{what}: message names a dependency that is not missing: {text!r}",
                    )
                else:
                    raise Violation(f"{n}.{what} succeeded although {gone} is missing")
    finally:
        for name in missing:
            sys.modules.pop(name, None)
        for name, module in saved.items():
            sys.modules[name] = module
        for n in originals:
            try:
                unregister_dialect(n)
            except (KeyError, ValueError):
                pass
        for n, engine in originals.items():
            register_dialect(n, engine)
    return Result(nontrivial=bool(missing), labels=tuple(sorted(missing)))


PARTS = [
    Part("history", _history, _run_history, quick=3000, thorough=60000),
    Part("missing", _missing, _run_missing, quick=250, thorough=2000),
]
