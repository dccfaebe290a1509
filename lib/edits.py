"""
Edits of schema specifications: from a source specification to a target specification the same dialect can hold.

An edit changes one thing (adds, removes or alters a module, class, field, label, default, description, reference or key
role). After the edits, whatever refers to a removed class is removed too, so that the target can always be built.
"""

import copy

from hypothesis import strategies as st

import schema as S

# types that every dialect can convert in place (with the data it holds)
WIDER = {
    "bool": [],
    "int8": [["int16"], ["int32"], ["int"], ["int64"]],
    "int16": [["int32"], ["int"], ["int64"]],
    "int32": [["int"], ["int64"]],
    "int": [],
    "int64": [],
    "uint8": [],
    "float32": [["float64"], ["float"]],
    "range": [["int"], ["int64"]],
}


def variant(name):
    return name[0].swapcase() + name[1:]


def walk_types(t):
    yield t
    if t[0] in ("list", "set"):
        yield from walk_types(t[1])
    if t[0] == "dref":
        for r in t[1]:
            yield ["ref", *r]


def prune(spec):
    "Removes fields that refer to classes that do not exist, and entity references by key types that no longer agree."
    while True:
        enums = {(i, e["name"]): len(e["members"]) for i, m in enumerate(spec["modules"]) for e in m["enums"]}
        structs = {(i, e["name"]) for i, m in enumerate(spec["modules"]) for e in m["structs"]}
        ents = {(i, e["name"]): e["fields"][0]["type"] for i, m in enumerate(spec["modules"]) for e in m["entities"]}
        changed = False
        for m in spec["modules"]:
            for kind in ("structs", "entities"):
                for c in m[kind]:
                    keep = []
                    for f in c["fields"]:
                        ok = True
                        for t in walk_types(f["type"]):
                            r = tuple(t[1:3]) if t[0] in ("enum", "extenum", "struct", "ref") else None
                            if t[0] == "enum" and enums.get(r, 0) < 2:
                                ok = False
                            if t[0] == "extenum" and enums.get(r, 0) != 1:
                                ok = False
                            if t[0] == "struct" and r not in structs:
                                ok = False
                            if t[0] == "ref" and r not in ents:
                                ok = False
                        if ok and f["type"][0] == "dref":
                            a, b = f["type"][1]
                            ok = ents[tuple(a)] == ents[tuple(b)]
                        if ok:
                            keep.append(f)
                        else:
                            changed = True
                    c["fields"] = keep
            n = len(m["structs"])
            m["structs"] = [c for c in m["structs"] if c["fields"]]
            changed = changed or n != len(m["structs"])
        if not changed:
            break
    for i, m in enumerate(spec["modules"]):
        for c in m["entities"]:
            for f in c["fields"]:
                if S.is_member(f.get("default")):
                    t = f["type"]
                    if t[0] not in ("enum", "extenum") or t[1] > i or f["default"][1] not in dict(S.members(spec, t)):
                        f.pop("default")
            c["fields"] = [c["fields"][0]] + S.order_fields(c["fields"][1:])
    return spec


def field_types(draw, opts, spec, i, struct=False, k=0):
    "Strategy for the type of a new field in module i, as in schema.schemas()."
    dialect = opts["dialect"]
    em, sm, am = S.effective(opts)
    mods = spec["modules"]
    t = [S.simple_types(dialect), S.simple_types(dialect)]
    enums = [["enum", j, e["name"]] for j, m in enumerate(mods) for e in m["enums"] if len(e["members"]) > 1]
    exts = [["extenum", j, e["name"]] for j, m in enumerate(mods) for e in m["enums"] if len(e["members"]) == 1]
    structs = [["struct", j, s["name"]] for j, m in enumerate(mods) for s in m["structs"]]
    ents = [(j, e["name"], e["fields"][0]["type"]) for j, m in enumerate(mods) for e in m["entities"]]
    if struct:
        if enums and sm == "TYPE" and em in ("TYPE", "CHECK"):
            t.append(st.sampled_from(enums))
        prev = [["struct", i, x["name"]] for x in mods[i]["structs"][:k]]
        if prev:
            t.append(st.sampled_from(prev))
        if am != "RELATION":
            t.append(st.sampled_from([["list", ["int"]], ["list", ["str"]]]))
        return st.one_of(t)
    if enums:
        t.append(st.sampled_from(enums))
        if am != "RELATION" or em == "RELATION":
            t.append(st.sampled_from([[c, e] for e in enums for c in ("list", "set")]))
    if exts:
        t.append(st.sampled_from(exts))
    if structs:
        t.append(st.sampled_from(structs))
        if am != "RELATION":
            t.append(st.sampled_from([["list", s] for s in structs]))
    if am != "RELATION":
        t.append(st.sampled_from([["list", ["int"]], ["list", ["str"]], ["set", ["int"]]]))
    if ents:
        t.append(st.sampled_from([["ref", x[0], x[1]] for x in ents]))
        t.append(st.sampled_from([[c, ["ref", x[0], x[1]]] for x in ents for c in ("list", "set")]))
        pairs = [[list(a[:2]), list(b[:2])] for a in ents for b in ents if a[:2] < b[:2] and a[2] == b[2]]
        if pairs:
            t.append(st.sampled_from([["dref", p] for p in pairs]))
    return st.one_of(t)


EDITS = [
    "add_entity", "drop_entity", "add_field", "add_field", "drop_field", "opt", "unique", "default", "default", "doc", "class_doc",
    "widen", "widen", "add_struct", "drop_struct", "add_member", "drop_member", "struct_doc", "add_enum", "drop_enum", "add_label",
    "add_module", "drop_module", "retarget", "reorder_fields", "replace_field", "member_type", "case",
]  # fmt: skip
CASE_SENSITIVE = ("postgresql", "oracle", "snowflake")  # quoted names that differ in case are different names
REFUSED = ["drop_label", "rename_label", "change_range", "role", "key_type", "swap_key"]


@st.composite
def edited(draw, opts, source, max_edits=5, kinds=EDITS, docs=True, defaults=True):
    "A target specification some edits away from the source."
    spec = copy.deepcopy(source)
    mods = spec["modules"]
    for _ in range(draw(st.integers(1, max_edits))):
        kind = draw(st.sampled_from(kinds))
        present = [i for i, m in enumerate(mods) if not m.get("absent")]
        entities = [(i, e) for i in present for e in mods[i]["entities"]]
        structs = [(i, e) for i in present for e in mods[i]["structs"]]
        enums = [(i, e) for i in present for e in mods[i]["enums"]]
        fields = [(i, e, f) for i, e in entities for f in e["fields"][1:]]
        if kind == "add_entity":
            i = draw(st.sampled_from(present))
            free = [n for n in S.ENTITY_NAMES if all(n != e["name"] for e in mods[i]["entities"])]
            role, t = draw(S.key_types())
            ent = {"name": draw(st.sampled_from(free)), "fields": [{"name": "id", "type": t, "role": role}]}
            mods[i]["entities"].insert(draw(st.integers(0, len(mods[i]["entities"]))), ent)
            names = draw(st.lists(st.sampled_from([x for x in S.FIELD_NAMES if x != "id"]), max_size=3, unique=True))
            ft = field_types(draw, opts, spec, i)
            ent["fields"] += S.order_fields([draw(S.field(x, ft, docs=docs, defaults=defaults)) for x in names])
        elif kind == "drop_entity" and len(entities) > 1:
            i, e = draw(st.sampled_from(entities))
            mods[i]["entities"].remove(e)
        elif kind in ("add_field", "replace_field"):
            if not entities:
                continue
            i, e = draw(st.sampled_from(entities))
            used = {f["name"] for f in e["fields"]}
            free = [n for n in S.FIELD_NAMES if n not in used]
            if kind == "add_field" and free:
                f = draw(S.field(draw(st.sampled_from(free)), field_types(draw, opts, spec, i), docs=docs, defaults=defaults))
                e["fields"].insert(draw(st.integers(1, len(e["fields"]))), f)
            elif kind == "replace_field" and len(e["fields"]) > 1 and free:
                # drop one column and add another one in its place
                k = draw(st.integers(1, len(e["fields"]) - 1))
                e["fields"][k] = draw(S.field(draw(st.sampled_from(free)), field_types(draw, opts, spec, i), docs=docs, defaults=defaults))
        elif kind == "reorder_fields" and entities:
            i, e = draw(st.sampled_from(entities))
            e["fields"] = [e["fields"][0]] + draw(st.permutations(e["fields"][1:]))
        elif kind in ("drop_field", "opt", "unique", "default", "doc", "widen", "retarget", "change_range") and fields:
            i, e, f = draw(st.sampled_from(fields))
            t = f["type"]
            if kind == "drop_field":
                e["fields"].remove(f)
            elif kind == "opt":
                if f.get("opt"):
                    f.pop("opt")
                else:
                    f["opt"] = True
            elif kind == "unique":
                if f.get("unique"):
                    f.pop("unique")
                elif t[0] in ("int", "max", "uuid", "int32"):
                    f["unique"] = True
            elif kind == "default":
                if f.get("default") is not None and draw(st.booleans()):
                    f.pop("default")
                else:
                    d = S.member_default(draw, spec, i, t) or S.default_for(draw, t)
                    if d is not None and defaults:
                        f["default"] = d
            elif kind == "doc":
                f["doc"] = draw(st.sampled_from([None] + S.DOCS)) if docs else None
                if f["doc"] is None:
                    f.pop("doc")
            elif kind == "retarget":
                if t[0] == "ref":
                    others = [["ref", j, x["name"]] for j, x in entities if x["fields"][0]["type"] == _key(mods, t)]
                    if others:
                        f["type"] = draw(st.sampled_from(others))
            elif kind == "change_range" and t[0] in ("range", "int", "int8", "int16", "int32", "int64", "storage"):
                f["type"] = ["range", draw(st.integers(-3, 3)), draw(st.integers(4, 300))]
                f.pop("default", None)
            elif kind == "widen":
                opts_w = WIDER.get(t[0], [])
                if t[0] == "max":
                    opts_w = [["max", n] for n in (2, 8, 64, 255, 300) if n > t[1]]
                    if not f.get("unique") and opts["dialect"] != "oracle":
                        opts_w.append(["str"])
                elif t[0] == "datetime" and len(t) > 1:
                    opts_w = [["datetime"]]
                elif t[0] == "decimal" and len(t) > 1:
                    opts_w = [["decimal", 20, 6], ["decimal"]]
                    if opts["dialect"] != "postgresql":
                        opts_w = opts_w[:1]
                if t[0] in ("int8", "int16") and f.get("unique"):
                    opts_w = []
                if opts_w:
                    f["type"] = draw(st.sampled_from(opts_w))
        elif kind == "class_doc" and entities:
            _, e = draw(st.sampled_from(entities))
            d = draw(st.sampled_from([None] + S.DOCS + ["First line.\n\nSecond paragraph."])) if docs else None
            e.pop("doc", None)
            if d:
                e["doc"] = d
        elif kind == "case" and opts["dialect"] in CASE_SENSITIVE:
            # a name that differs from another one in the case of a letter
            what = draw(st.sampled_from(["field", "field", "entities", "structs", "enums"]))
            if what == "field" and fields:
                i, e, f = draw(st.sampled_from(fields))
                new = variant(f["name"])
                if all(x["name"] != new for x in e["fields"]):
                    if draw(st.booleans()):
                        f["name"] = new
                    else:
                        e["fields"].append({"name": new, "type": draw(S.simple_types(opts["dialect"])), "opt": True})
            elif what != "field":
                i = draw(st.sampled_from(present))
                if mods[i][what]:
                    k = draw(st.integers(0, len(mods[i][what]) - 1))
                    e = mods[i][what][k]
                    new = variant(e["name"])
                    if new not in S.FIELD_NAMES and all(x["name"] != new for c in ("entities", "structs", "enums") for x in mods[i][c]):
                        if draw(st.booleans()):
                            e["name"] = new
                        else:
                            mods[i][what].insert(k + 1, {**copy.deepcopy(e), "name": new})
        elif kind == "add_struct":
            i = draw(st.sampled_from(present))
            free = [n for n in S.STRUCT_NAMES if all(n != e["name"] for e in mods[i]["structs"])]
            if free:
                names = draw(st.lists(st.sampled_from(S.FIELD_NAMES), min_size=1, max_size=3, unique=True))
                ft = field_types(draw, opts, spec, i, struct=True, k=len(mods[i]["structs"]))
                mods[i]["structs"].append(
                    {"name": draw(st.sampled_from(free)), "fields": [draw(S.field(x, ft, defaults=False, docs=docs, unique=False)) for x in names]}
                )
        elif kind in ("drop_struct", "add_member", "drop_member", "struct_doc", "member_type") and structs:
            i, s = draw(st.sampled_from(structs))
            if kind == "drop_struct":
                mods[i]["structs"].remove(s)
            elif kind == "add_member":
                free = [n for n in S.FIELD_NAMES if all(n != f["name"] for f in s["fields"])]
                ft = field_types(draw, opts, spec, i, struct=True, k=mods[i]["structs"].index(s))
                s["fields"].append(draw(S.field(draw(st.sampled_from(free)), ft, defaults=False, docs=docs, unique=False)))
            elif kind == "member_type":
                f = draw(st.sampled_from(s["fields"]))
                wider = WIDER.get(f["type"][0], [])
                if wider:
                    f["type"] = draw(st.sampled_from(wider))
            elif kind == "drop_member" and len(s["fields"]) > 1:
                s["fields"].pop(draw(st.integers(0, len(s["fields"]) - 1)))
            elif kind == "struct_doc" and docs:
                if draw(st.booleans()):
                    s.pop("doc", None)
                    d = draw(st.sampled_from([None] + S.DOCS))
                    if d:
                        s["doc"] = d
                else:
                    f = draw(st.sampled_from(s["fields"]))
                    f.pop("doc", None)
                    d = draw(st.sampled_from([None] + S.DOCS))
                    if d:
                        f["doc"] = d
        elif kind == "add_enum":
            i = draw(st.sampled_from(present))
            free = [n for n in S.ENUM_NAMES if all(n != e["name"] for e in mods[i]["enums"])]
            if free:
                mods[i]["enums"].append(draw(S.enum_def(draw(st.sampled_from(free)))))
        elif kind in ("drop_enum", "add_label", "drop_label", "rename_label") and enums:
            i, e = draw(st.sampled_from(enums))
            n = len(e["members"])
            if kind == "drop_enum":
                mods[i]["enums"].remove(e)
            elif n > 1:
                if kind == "add_label":
                    have = [v for _, v in e["members"]]
                    pool = [v for v in (range(10, 15) if isinstance(have[0], int) else S.LABELS) if v not in have]
                    v = draw(st.sampled_from(list(pool)))
                    name = f"n{n}" if all(x != f"n{n}" for x, _ in e["members"]) else f"p{n}"
                    e["members"].insert(draw(st.integers(0, n)), [name, v])
                elif kind == "drop_label" and n > 2:
                    e["members"].pop(draw(st.integers(0, n - 1)))
                elif kind == "rename_label":
                    k = draw(st.integers(0, n - 1))
                    v = e["members"][k][1]
                    e["members"][k][1] = v + 100 if isinstance(v, int) else v + "2"
        elif kind == "add_module":
            used = [m["ns"] for m in mods]
            free = [x for x in [None] + S.NS_NAMES if x not in used]
            if free:
                mods.append({"ns": draw(st.sampled_from(free)), "enums": [], "structs": [], "entities": []})
                i = len(mods) - 1
                role, t = draw(S.key_types())
                ent = {"name": draw(st.sampled_from(S.ENTITY_NAMES)), "fields": [{"name": "id", "type": t, "role": role}]}
                mods[i]["entities"].append(ent)
                ft = field_types(draw, opts, spec, i)
                names = draw(st.lists(st.sampled_from(["name", "value", "flag"]), max_size=2, unique=True))
                ent["fields"] += S.order_fields([draw(S.field(x, ft, docs=docs, defaults=defaults)) for x in names])
        elif kind == "drop_module" and len(present) > 1:
            i = draw(st.sampled_from(present))
            mods[i].update(absent=True, enums=[], structs=[], entities=[])
        elif kind in ("role", "key_type", "swap_key") and entities:
            _, e = draw(st.sampled_from(entities))
            f = e["fields"][0]
            if kind == "role" and f["type"][0] in ("int", "int32", "int64"):
                f["role"] = "pk" if f["role"] == "id" else "id"
            elif kind == "key_type":
                f["role"], f["type"] = draw(S.key_types())
            elif kind == "swap_key":
                used = {f["name"] for f in e["fields"]}
                f["name"] = draw(st.sampled_from([n for n in ("key", "Id", "code") if n not in used]))
        prune(spec)
    if not set(kinds) & set(REFUSED):
        convertible(source, spec)
    return prune(spec)


def convertible(source, target):
    "Makes sure that a class removed and added again does not require a type change the database cannot make in place."
    for i, n in enumerate(source["modules"]):
        m = target["modules"][i]
        for kind in ("structs", "entities"):
            for c in m[kind]:
                for e in n[kind]:
                    if e["name"] != c["name"]:
                        continue
                    old = {f["name"]: f for f in e["fields"]}
                    if kind == "entities":
                        if c["fields"][0]["name"] != e["fields"][0]["name"]:
                            c["fields"] = c["fields"][:1] + [f for f in c["fields"][1:] if f["name"] != e["fields"][0]["name"]]
                        c["fields"][0] = copy.deepcopy(e["fields"][0])
                        c["fields"] = c["fields"][:1] + [f for f in c["fields"][1:] if f["name"] != c["fields"][0]["name"]]
                    for f in c["fields"]:
                        g = old.get(f["name"])
                        if g is not None and g["type"] != f["type"] and f["type"] not in widened(g["type"]):
                            # references may go elsewhere, which the tool refuses
                            if {g["type"][0], f["type"][0]} <= {"ref"} or {g["type"][0], f["type"][0]} <= {"list", "set", "enum"}:
                                continue
                            f["type"] = copy.deepcopy(g["type"])
                            f.pop("default", None)
    return prune(target)


def _key(mods, ref):
    for e in mods[ref[1]]["entities"]:
        if e["name"] == ref[2]:
            return e["fields"][0]["type"]
    return None


def keep_rows(source, target):
    "Changes the target such that the migration does not conflict with rows that the tables may have."
    target = copy.deepcopy(target)
    for i, n in enumerate(source["modules"]):
        m = target["modules"][i]
        for c in m["entities"]:
            for e in n["entities"]:
                if e["name"] != c["name"]:
                    continue
                old = {f["name"]: f for f in e["fields"]}
                for f in c["fields"][1:]:
                    g = old.get(f["name"])
                    if g is None:
                        f.pop("unique", None)
                        if f.get("default") is None or S.is_member(f["default"]):
                            f["opt"] = True
                        continue
                    if g["type"] != f["type"] and f["type"] not in widened(g["type"]):
                        f["type"] = copy.deepcopy(g["type"])
                        f.pop("default", None)
                    if g.get("opt"):
                        f["opt"] = True
                    if f.get("unique") and not g.get("unique") and (g.get("opt") or f["type"] != g["type"]):
                        f.pop("unique")
                    if f.get("unique") and f["type"][0] not in ("int", "max", "uuid", "int32", "int64"):
                        f.pop("unique")
    return prune(target)


def widened(t):
    "Types that a column of a type can turn into, possibly in several steps."
    out = list(WIDER.get(t[0], []))
    for u in list(out):
        out += widened(u)
    if t[0] == "max":
        out += [["max", n] for n in (2, 8, 64, 255, 300) if n > t[1]] + [["str"]]
    if t[0] == "datetime" and len(t) > 1:
        out += [["datetime"]]
    if t[0] == "decimal" and len(t) > 1:
        out += [["decimal", 20, 6], ["decimal"]]
    return out


@st.composite
def columns(draw, opts, docs=True):
    "One class of many fields, and the same class with other attributes (optional, default, description, unique, wider type) of each."
    spec = {"modules": [{"ns": draw(st.sampled_from([None] + S.NS_NAMES)), "enums": [draw(S.enum_def("Color"))], "structs": [], "entities": []}]}
    role, key = draw(S.key_types())
    if draw(st.integers(0, 2)) == 0:
        role, key = draw(st.sampled_from(["pk", "id"])), draw(st.sampled_from([["int"], ["int32"], ["int16"]]))
    other = {"name": "Team", "fields": [{"name": "id", "type": ["int"], "role": "pk"}]}
    types = st.one_of(S.simple_types(opts["dialect"]), S.simple_types(opts["dialect"]), st.sampled_from([["enum", 0, "Color"], ["ref", 0, "Team"], ["datetime"], ["str"], ["max", 8]]))
    versions = [[], []]
    for name in draw(st.lists(st.sampled_from(S.FIELD_NAMES), min_size=2, max_size=9, unique=True)):
        t = draw(types)
        f = draw(S.field(name, st.just(t), docs=docs))
        g = draw(S.field(name, st.just(t), docs=docs))
        for x in (f, g):
            d = S.member_default(draw, spec, 0, t) if t[0] == "enum" and draw(st.booleans()) else None
            if d is None and draw(st.booleans()):
                d = S.default_for(draw, t)
            if d is not None:
                x["default"] = d
        if not f.get("unique") and not g.get("unique") and t[0] != "max" and draw(st.integers(0, 3)) == 0:
            wider = [w for w in WIDER.get(t[0], [])]
            if wider:
                g["type"] = draw(st.sampled_from(wider))
        versions[0].append(f)
        versions[1].append(g)
    roles = [role, role]
    # SQL Server cannot add or drop the identity property, Oracle cannot add it
    if opts["dialect"] != "mssql" and key[0] in ("int", "int16", "int32", "int64") and draw(st.booleans()):
        roles = ["id", "pk"] if opts["dialect"] == "oracle" or draw(st.booleans()) else ["pk", "id"]
    keys = [key, key]
    if WIDER.get(key[0]) and opts["dialect"] != "mssql" and draw(st.booleans()):
        keys[1] = draw(st.sampled_from(WIDER[key[0]]))
    out = []
    for role, key, fields in zip(roles, keys, versions):
        s = copy.deepcopy(spec)
        ent = {"name": "Main", "fields": [{"name": "id", "type": key, "role": role}] + S.order_fields(fields)}
        s["modules"][0]["entities"] = [copy.deepcopy(other), ent]
        out.append(s)
    return out
