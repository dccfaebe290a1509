"""
C29: classes land only in the schema their module is mapped to.

Several modules define classes of the same names. Where every object and every reference lies follows from the module
alone; the schema model, the creation script and the removal script are compared with that.
"""

import copy
import re

from hypothesis import strategies as st

import derive
import schema as S
import sqllex
from vh import Part, Result, check, check_equal

PROPERTY = "C29"
RULE = "two modules define a class of the same name, or a class refers to a class in another module"
ASSUMPTIONS = [
    "names of classes and fields do not contain two consecutive underscores (the separator of prefixes)",
    "a class of an unmapped module that leads to no object and no reference (such as an enumeration stored as a check constraint) may be accepted",
]

@st.composite
def cases(draw, dialects=S.ALL):
    o = draw(S.options(dialects))
    return {"opts": o, "spec": draw(S.twin_schemas(o)), "by": draw(st.sampled_from(["modules", "tables"]))}


def create(g, b, by):
    if by == "modules":
        return g.create(modules=b.modules)
    return g.create(tables=[b.cls(i, e["name"]) for i, m in enumerate(b.spec["modules"]) if not m.get("absent") for e in m["entities"]])


def related(spec):
    "Whether a class refers to another module."
    def other(t, i):
        if t[0] in ("list", "set"):
            return other(t[1], i)
        if t[0] == "dref":
            return any(r[0] != i for r in t[1])
        return t[0] in ("ref", "enum", "extenum", "struct") and t[1] != i

    return any(other(f["type"], i) for i, m in enumerate(spec["modules"]) for c in m["entities"] + m["structs"] for f in c["fields"])


def shared(spec):
    names = [(k, c["name"]) for m in spec["modules"] for k in ("entities", "structs", "enums") for c in m[k]]
    return len(set(names)) < len(names)


def qualified(sql, dialect):
    "Pairs of qualifier (or None) and name of each maximal dotted chain of identifiers in a script."
    toks = sqllex.tokenize(sql, dialect)
    out, i = [], 0
    while i < len(toks):
        if toks[i][0] == "id":
            chain = [toks[i][1]]
            while i + 2 < len(toks) and toks[i + 1] == ("op", ".") and toks[i + 2][0] == "id":
                chain.append(toks[i + 2][1])
                i += 2
            out.append(chain)
        i += 1
    return out


def run(case):
    opts, spec = case["opts"], case["spec"]
    dialect = opts["dialect"]
    want = derive.expected(spec, opts)
    ns = {m["ns"] for m in spec["modules"]}
    with S.Build(spec) as b:
        g = S.make_generator(opts, b)
        script = create(g, b, case["by"])
        got = derive.observed(g.state)
        names = set(got["tables"])
        lacking = set(want["tables"]) - names
        check(not lacking, lambda: f"no tables {sorted(lacking)}; there are {sorted(names)}")
        for id, t in got["tables"].items():
            scope, local = id.split(".", 1)
            if dialect in S.PREFIXED:
                check_equal(t["namespace"], "", f"schema of {id}")
            else:
                check_equal(t["namespace"], scope, f"schema that {id} belongs to")
        for id, w in want["tables"].items():
            t = got["tables"][id]
            check_equal([c["user_type"] for c in t["columns"]], [c["user_type"] for c in w["columns"]], f"types that {id} refers to")
            check_equal(t["fks"], w["fks"], f"tables that {id} refers to")
            check_equal(t["either"], w["either"], f"tables that {id} refers to")
            check_equal([c["name"] for c in t["columns"]], [c["name"] for c in w["columns"]], f"columns of {id}")
        check_equal(sorted(got["types"]), sorted(want["types"]), "types")
        joins = sorted([j["ns"], j["prefix"] or "", j["fks"]] for j in want["joins"])
        found = []
        for id in names - set(want["tables"]):
            scope, local = id.split(".", 1)
            t = got["tables"][id]
            sides = {f[0][0]: f[1:] for f in t["fks"]}
            prefix = local.split("__")[0] if dialect in S.PREFIXED and "__" in local else ""
            found.append([scope, prefix, [sides[c["name"]] for c in t["columns"] if c["name"] in sides]])
        check_equal(sorted(found), joins, "join tables")
        # the scripts
        if dialect in ("delta", "snowflake", "redshift", "trino"):
            lex = "postgresql" if dialect in ("redshift",) else None
        else:
            lex = dialect
        scripts = [script or ""]
        if dialect in S.RELATIONAL:
            scripts.append(g.drop() or "")
        if lex is not None:
            known = {tuple(x.split(".", 1)) for x in [*want["tables"], *want["types"]]} | {tuple(x.split(".", 1)) for x in names - set(want["tables"])}
            objects = {l for _, l in known}
            for text in scripts:
                for chain in qualified(text, lex):
                    if len(chain) >= 2 and chain[0] in ns | objects:
                        if chain[0] in ns and (chain[0], chain[1]) in known:
                            continue
                        # a column qualified by its table
                        check(chain[0] in objects or len(chain) == 3, lambda: f"{'.'.join(chain)} denotes no object; there are {sorted(known)}")
                made = re.findall(r"CREATE SCHEMA[^;]*", text)
                if dialect in S.PREFIXED:
                    check(not made, lambda: f"schema created: {made}")
    pair = related(spec) and len(spec["modules"]) > 1
    return Result(shared(spec) or pair, [dialect] + (["same name"] if shared(spec) else []) + (["across"] if pair else []) + (["default schema"] if None in ns else []))


# --------------------------------------------------------------------------------------------------------- refusals


@st.composite
def unmapped_cases(draw):
    o = draw(S.options(S.ALL))
    spec = copy.deepcopy(draw(S.schemas(o, max_modules=3, max_entities=2, docs=False, defaults=False)))
    n = len(spec["modules"])
    absent = draw(st.integers(0, n - 1))
    spec["modules"][absent]["absent"] = True
    return {"opts": o, "spec": spec, "by": draw(st.sampled_from(["modules", "tables", "all modules", "all tables"])), "kind": "unmapped"}


@st.composite
def shared_cases(draw):
    o = draw(S.options(S.ALL))
    spec = copy.deepcopy(draw(S.schemas(o, max_modules=3, max_entities=1, docs=False, defaults=False)))
    mods = spec["modules"]
    if len(mods) < 2:
        mods.append({"ns": None, "enums": [], "structs": [], "entities": []})
    i, j = draw(st.permutations(range(len(mods))))[:2]
    mods[j]["ns"] = mods[i]["ns"]
    return {"opts": o, "spec": spec, "by": "modules", "kind": "shared"}


def reaches(spec, opts, roots):
    "Whether classes of a module without a schema lead to an object or reference, starting from modules."
    spec = copy.deepcopy(spec)
    entities = {(i, e["name"]): e for i, m in enumerate(spec["modules"]) for e in m["entities"]}
    for i, m in enumerate(spec["modules"]):
        if m.get("absent"):
            m["ns"] = "\0absent"
    # entities that the roots refer to; without foreign constraints, too
    seen, todo = set(), [k for k in entities if k[0] in roots]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        for f in entities[k]["fields"]:
            t = f["type"]
            t = t[1] if t[0] in ("list", "set") else t
            if t[0] == "ref":
                todo.append((t[1], t[2]))
            elif t[0] == "dref":
                todo += [tuple(r) for r in t[1]]
    for i, m in enumerate(spec["modules"]):
        m["entities"] = [e for e in m["entities"] if (i, e["name"]) in seen]
    if not seen:
        return False
    # `expected` resolves references to entities, all of which are left
    want = derive.expected(spec, opts)
    return "\0absent" in str(want).replace("\\x00", "\0")


def run_refused(case):
    opts, spec = case["opts"], case["spec"]
    with S.Build(spec) as b:
        if case["kind"] == "shared":
            try:
                g = S.make_generator(opts, b)
            except ValueError:
                return Result(True, [opts["dialect"], "shared", "default" if any(m["ns"] is None for m in spec["modules"]) else "named"])
            check(False, f"two modules share a schema: {[m['ns'] for m in spec['modules']]}")
        g = S.make_generator(opts, b)
        everything = case["by"].startswith("all ")
        roots = [i for i, m in enumerate(spec["modules"]) if everything or not m.get("absent")]
        must = reaches(spec, opts, roots)
        before = copy.deepcopy(g.state)
        try:
            if case["by"].endswith("modules"):
                g.create(modules=[b.all_modules[i] for i in roots])
            else:
                g.create(tables=[b.cls(i, e["name"]) for i in roots for e in spec["modules"][i]["entities"]])
        except ValueError as e:
            empty = all(not m[k] for m in spec["modules"] if m.get("absent") for k in ("enums", "structs", "entities"))
            check(must or not empty, lambda: f"refused though no class of an unmapped module takes part: {e}")
            check(g.state == before, "the state of the generator has changed")
            return Result(True, [opts["dialect"], "unmapped"])
        check(not must, "a class of an unmapped module was accepted")
    return Result(False, [opts["dialect"], "accepted"])


PARTS = [
    Part("model", cases, run, quick=700, thorough=20000),
    Part("unmapped", unmapped_cases, run_refused, quick=400, thorough=8000),
    Part("shared", shared_cases, run_refused, quick=100, thorough=1000),
]
