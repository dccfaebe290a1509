"""
C25: schema models are deterministic, and merging them is a union.

Determinism: the same specification is built in different orders, in fresh modules, and in interpreters with different
hash seeds; model and script must be the same text. Merging: a schema model is torn into two overlapping ones, whose
union must be the original.
"""

import atexit
import copy
import json
import os
import random
import subprocess
import sys

if __name__ == "__main__":
    # an interpreter with another hash seed (see `serve`)
    HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:0] = [os.path.join(HERE, "lib"), HERE]
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from hypothesis import strategies as st

import schema as S
from vh import HarnessError, Part, Result, check, check_equal

PROPERTY = "C25"
RULE = "at least two classes take part (order), or both operands have an object that the other one lacks (union)"
ASSUMPTIONS = [
    "order of columns follows the order of fields; the order of classes in a module and of modules is immaterial",
    "classes that a listed class refers to are part of the set whether listed or not",
]


@st.composite
def order_cases(draw):
    o = draw(S.options(S.ALL))
    twins = draw(st.booleans())
    spec = draw(S.twin_schemas(o)) if twins else draw(S.schemas(o))
    return {"opts": o, "spec": spec, "seeds": draw(st.lists(st.integers(0, 10**6), min_size=3, max_size=3))}


@st.composite
def nested_cases(draw):
    "Structures that consist of several other structures."
    o = draw(S.options(("postgresql", "postgresql", "trino", "delta"), foreign_constraints=True))
    n = draw(st.integers(1, 2))
    ns = S.namespaces(draw, n)
    mods = [{"ns": ns[i], "enums": [], "structs": [], "entities": []} for i in range(n)]
    prev = []
    for i in range(n):
        for x in draw(st.lists(st.sampled_from("ABCDEFGH"), min_size=2, max_size=6, unique=True)):
            used = draw(st.lists(st.sampled_from(prev), max_size=3, unique_by=str)) if prev else []
            fields = [{"name": f"f{k}", "type": t} for k, t in enumerate(used)] + [{"name": "x", "type": ["int"]}]
            mods[i]["structs"].append({"name": x, "fields": fields})
            prev.append(["struct", i, x])
    key = {"name": "id", "type": ["int"], "role": "pk"}
    fields = [{"name": f"s{k}", "type": t} for k, t in enumerate(draw(st.lists(st.sampled_from(prev), min_size=1, max_size=4, unique_by=str)))]
    mods[-1]["entities"] = [{"name": "Person", "fields": [key, *fields]}]
    return {"opts": o, "spec": {"modules": mods}, "seeds": draw(st.lists(st.integers(0, 10**6), min_size=3, max_size=3))}


def text(catalog):
    "Complete text of a schema model, in order."
    return repr(catalog.namespaces)


def roots(spec):
    "Entities from which all others can be reached, greedily."
    ents = [(i, e["name"]) for i, m in enumerate(spec["modules"]) for e in m["entities"]]
    by = {(i, e["name"]): e for i, m in enumerate(spec["modules"]) for e in m["entities"]}

    def reach(start):
        seen, todo = set(), list(start)
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            for f in by[k]["fields"]:
                t = f["type"]
                t = t[1] if t[0] in ("list", "set") else t
                if t[0] == "ref":
                    todo.append((t[1], t[2]))
                elif t[0] == "dref":
                    todo += [tuple(r) for r in t[1]]
        return seen

    left = list(ents)
    for k in ents:
        rest = [x for x in left if x != k]
        if k in reach(rest):
            left = rest
    return left


def produce(opts, spec, order=None, by="tables", prefix="vm"):
    "Script and model text with classes listed in an order."
    # module names are part of the same set of classes: keep them
    with S.Build(spec, prefix) as b:
        g = S.make_generator(opts, b)
        if by == "modules":
            mods = list(b.modules)
            if order is not None:
                random.Random(order).shuffle(mods)
            s = g.create(modules=mods)
        elif by == "roots":
            s = g.create(tables=[b.cls(*k) for k in roots(spec)])
        else:
            ents = list(b.entities)
            if order is not None:
                random.Random(order).shuffle(ents)
            if by == "twice":
                ents = ents + ents[: len(ents) // 2]
            s = g.create(tables=ents)
        return s, text(g.state)


def reorder(spec, seed):
    "The same classes defined in another order within each module, where Python permits."
    spec = copy.deepcopy(spec)
    r = random.Random(seed)
    for m in spec["modules"]:
        r.shuffle(m["entities"])
        r.shuffle(m["enums"])
    return spec


def run_order(case):
    opts, spec = case["opts"], case["spec"]
    junk = []
    want = produce(opts, spec)
    a, b, c = case["seeds"]
    for what, s, kw in (
        ("classes listed in another order", spec, {"order": a}),
        ("modules", spec, {"by": "modules"}),
        ("modules in another order", spec, {"by": "modules", "order": b}),
        ("classes listed twice", spec, {"by": "twice", "order": c}),
        ("only classes that others do not refer to", spec, {"by": "roots"}),
        ("classes defined in another order", reorder(spec, a), {"order": b}),
    ):
        # other objects in memory, so that classes are allocated elsewhere
        junk.append([type(f"J{i}", (), {}) for i in range(1 + (a + len(junk)) % 7)])
        got = produce(opts, s, **kw)
        check_equal(got[1], want[1], f"model with {what}")
        check_equal(got[0], want[0], f"script with {what}")
    n = sum(len(m["entities"]) for m in spec["modules"])
    names = [e["name"] for m in spec["modules"] for e in m["entities"]]
    n += sum(len(m["structs"]) for m in spec["modules"])
    return Result(n > 1, [opts["dialect"]] + (["same name"] if len(set(names)) < len(names) else []))


# ------------------------------------------------------------------------------------------------- other interpreters

WORKERS = {}


def worker(seed):
    key = (os.getpid(), seed)
    if key not in WORKERS:
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)
        WORKERS[key] = p
        atexit.register(p.kill)
    return WORKERS[key]


def ask(seed, case):
    p = worker(seed)
    try:
        p.stdin.write(json.dumps(case) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
    except OSError as e:
        raise HarnessError(f"worker: {e}")
    if not line:
        raise HarnessError("worker ended")
    return json.loads(line)


def run_hash(case):
    opts, spec = case["opts"], case["spec"]
    want = list(produce(opts, spec))
    for seed in (1, 2, 77):
        got = ask(seed, case)
        if "error" in got:
            check(False, f"fails with another hash seed: {got['error']}")
        check_equal(got["result"][1], want[1], f"model with hash seed {seed}")
        check_equal(got["result"][0], want[0], f"script with hash seed {seed}")
    n = sum(len(m["entities"]) for m in spec["modules"])
    return Result(n > 1, [opts["dialect"]])


def serve():
    for line in sys.stdin:
        case = json.loads(line)
        try:
            out = {"result": produce(case["opts"], case["spec"])}
        except Exception as e:
            out = {"error": f"{type(e).__name__}: {e}"}
        print(json.dumps(out), flush=True)


# ------------------------------------------------------------------------------------------------------------- union


@st.composite
def merge_cases(draw):
    o = draw(S.options(S.ALL))
    return {"opts": o, "spec": draw(S.schemas(o)), "seed": draw(st.integers(0, 10**6)), "change": draw(st.integers(0, 10**4))}


def objects(catalog):
    return [(ns.name.local_id, kind, o.name.local_id) for ns in catalog.namespaces.values() for kind in ("enums", "structs", "tables") for o in getattr(ns, kind).values()]


def part(catalog, keep, namespaces):
    "Copy of a part of a schema model."
    out = []
    for ns in catalog.namespaces.values():
        n = ns.name.local_id
        pick = {k: [copy.deepcopy(o) for o in getattr(ns, k).values() if (n, k, o.name.local_id) in keep] for k in ("enums", "structs", "tables")}
        if n in namespaces or any(pick.values()):
            out.append(type(ns)(name=copy.deepcopy(ns.name), **pick))
    return type(catalog)(namespaces=out)


def mutable(catalog):
    "Identities of all objects that make up a schema model and can be changed in place."
    out = {}
    for ns in catalog.namespaces.values():
        out[id(ns)] = ns
        for kind in ("enums", "structs", "tables"):
            out[id(getattr(ns, kind))] = getattr(ns, kind)
            for o in getattr(ns, kind).values():
                out[id(o)] = o
                for attr in ("columns", "members", "constraints"):
                    d = getattr(o, attr, None)
                    if d is not None:
                        out[id(d)] = d
                        for x in d.values():
                            out[id(x)] = x
                if isinstance(getattr(o, "values", None), list):
                    out[id(o.values)] = o.values
    return out


def alter(o, kind, n):
    "Changes the definition of an object in place; tells what."
    from pysqlsync.model.data_types import SqlVariableBinaryType, SqlVariableCharacterType
    from pysqlsync.model.id_types import LocalId

    other = SqlVariableCharacterType(limit=173)
    if kind == "enums":
        if n % 3 == 2 and len(o.values) > 1:
            i = n % (len(o.values) - 1)
            o.values = list(o.values)
            o.values[i], o.values[i + 1] = o.values[i + 1], o.values[i]
            return "order of values"
        if n % 3:
            o.values = list(o.values) + ["another value"]
            return "an additional value"
        o.values = list(o.values)[:-1]
        return "one value less"
    if kind == "structs":
        m = list(o.members.values())[n % len(o.members)]
        if n % 3 == 0:
            m.data_type = other
            return "type of a member"
        if n % 3 == 1:
            o.members.add(type(m)(LocalId("zz_more"), other))
            return "an additional member"
        o.description = "Another description."
        return "description"
    c = list(o.columns.values())[n % len(o.columns)]
    k = n % 9
    if k == 7 and o.constraints:
        x = list(o.constraints.values())[n % len(o.constraints)]
        if hasattr(x, "foreign_columns"):
            x.reference = type(x.reference)(x.reference.table, (LocalId("zz_other"),))
            return "column that a constraint refers to"
        if hasattr(x, "unique_columns"):
            x.unique_columns = (*x.unique_columns, LocalId("zz_other"))
            return "columns of a constraint"
        x.name = LocalId("zz_other")
        return "name of a constraint"
    if k == 8:
        o.primary_key = (*o.primary_key, LocalId("zz_other"))
        return "primary key"
    if k == 0:
        c.data_type = other
        return "type of a column"
    if k == 1:
        c.nullable = not c.nullable
        return "nullability of a column"
    if k == 2:
        c.default = None if c.default else "'another'"
        return "default of a column"
    if k == 3:
        c.identity = not c.identity
        return "identity of a column"
    if k == 4:
        o.columns.add(type(c)(LocalId("zz_more"), other, True))
        return "an additional column"
    if k == 5 and o.constraints:
        o.constraints.remove(list(o.constraints.keys())[n % len(o.constraints)])
        return "one constraint less"
    if k == 6:
        o.description = "Another description."
        return "description"
    c.description = "Another description."
    return "description of a column"


def run_merge(case):
    from pysqlsync.formation.object_types import FormationError

    opts, spec = case["opts"], case["spec"]
    r = random.Random(case["seed"])
    with S.Build(spec) as b:
        g = S.make_generator(opts, b)
        g.create(tables=b.entities)
        whole = g.state
    objs = objects(whole)
    side = {k: r.choice("LRB") for k in objs}
    nss = {n: r.choice("LRB") for n in [x.name.local_id for x in whole.namespaces.values()]}
    left = part(whole, {k for k, s in side.items() if s in "LB"}, {n for n, s in nss.items() if s in "LB"})
    right = part(whole, {k for k, s in side.items() if s in "RB"}, {n for n, s in nss.items() if s in "RB"})
    everything = copy.deepcopy(whole)
    right_before, right_text = copy.deepcopy(right), text(right)
    # union, either way
    union = copy.deepcopy(left)
    union.merge(right)
    check(union == whole, lambda: f"union of two parts is not the whole: {S.diff(sorted(map(str, objects(union))), sorted(map(str, objs)))}")
    check_equal(sorted(objects(union)), sorted(objs), "objects of the union")
    check(right == right_before and text(right) == right_text, "merging has changed the right operand")
    common = mutable(union).keys() & mutable(right).keys()
    check(not common, lambda: f"the union shares objects with the right operand: {[type(mutable(union)[i]).__name__ for i in common]}")
    back = copy.deepcopy(right)
    back.merge(left)
    check(back == whole, "union in the other order is not the whole")
    # nothing changes
    union.merge(whole)
    check(union == everything, "merging equal definitions has changed something")
    whole.merge(copy.deepcopy(whole))
    check(whole == everything and text(whole) == text(everything), "merging a model with a copy of itself has changed it")
    empty = type(whole)(namespaces=[])
    empty.merge(whole)
    check(empty == whole, "union with nothing is not the whole")
    whole.merge(type(whole)(namespaces=[]))
    check(whole == everything, "merging nothing has changed something")
    # changing the union leaves the right operand alone
    label = []
    changes = []
    for kind, count in (("enums", 3), ("structs", 3), ("tables", 4)):
        # changes of all sorts, each to one of the objects
        some = [x for x in objs if x[1] == kind]
        changes += [(some[(case["change"] // 11 + i) % len(some)], case["change"] + i) for i in range(count) if some]
    for (n, kind, name), change in changes:
        other = copy.deepcopy(whole)
        what = alter(getattr(other.namespaces[n], kind)[name], kind, change)
        for mine, theirs in ((whole, other), (other, whole)):
            try:
                copy.deepcopy(mine).merge(theirs)
            except FormationError as e:
                check(name in str(e), lambda: f"refusal does not name {name}: {e}")
            else:
                check(False, f"different definitions of {kind[:-1]} {n}.{name} merged ({what})")
        label.append(f"{kind}: {what}")
    two = any(s == "L" for s in side.values()) and any(s == "R" for s in side.values())
    return Result(two, [opts["dialect"]] + label)


PARTS = [
    Part("order", order_cases, run_order, quick=300, thorough=8000),
    Part("nested", nested_cases, run_order, quick=200, thorough=5000),
    Part("hash", order_cases, run_hash, quick=160, thorough=4000),
    Part("merge", merge_cases, run_merge, quick=500, thorough=12000),
]

if __name__ == "__main__":
    serve()
