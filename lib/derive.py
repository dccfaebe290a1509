"""
What a schema should hold according to a specification (lib/schema.py), derived without the code under test.

The result and the reading of a schema model (`observed`) have the same form.
"""

import datetime
import decimal

import schema as S


def ident(opts, ns, name):
    "Pair of schema and local name."
    if opts["dialect"] in S.PREFIXED:
        return ["", f"{ns}__{name}" if ns is not None else name]
    return [ns or "", name]


def enums_in(t):
    if t[0] in ("enum", "extenum"):
        return [t]
    if t[0] in ("list", "set"):
        return enums_in(t[1])
    return []


def default_value(d):
    if isinstance(d, list):
        tag, x = d
        if tag == "datetime":
            v = datetime.datetime.fromisoformat(x)
            return v.astimezone(datetime.timezone.utc).replace(tzinfo=None).isoformat(sep=" ") if v.tzinfo else v.isoformat(sep=" ")
        return decimal.Decimal(x) if tag == "decimal" else float(x)
    return d


def literal(text):
    "Value of an SQL literal."
    if text is None:
        return None
    if text[:1] == "'" and text[-1:] == "'" and len(text) > 1:
        return text[1:-1].replace("''", "'")
    if text in ("TRUE", "FALSE"):
        return text == "TRUE"
    return decimal.Decimal(text)


def same_default(declared, text):
    "Whether an SQL literal denotes a declared default value."
    got = literal(text)
    if isinstance(declared, bool) or isinstance(got, bool):
        return declared is got
    if isinstance(declared, (int, float, decimal.Decimal)):
        return isinstance(got, decimal.Decimal) and decimal.Decimal(repr(declared) if isinstance(declared, float) else str(declared)) == got
    return declared == got


def expected(spec, opts):
    em, sm, am = S.effective(opts)
    dialect = opts["dialect"]
    foreign = opts.get("foreign_constraints", True) and dialect not in S.NO_FOREIGN
    unique = dialect not in S.NO_FOREIGN
    check = dialect not in S.NO_CHECK
    mods = spec["modules"]
    ns = [m["ns"] for m in mods]
    members = {(i, e["name"]): [v for _, v in e["members"]] for i, m in enumerate(mods) for e in m["enums"]}
    ents = {(i, e["name"]): e for i, m in enumerate(mods) for e in m["entities"]}
    structs = {(i, s["name"]): s for i, m in enumerate(mods) for s in m["structs"]}
    tables, types, lookups = [], {}, {}

    def key(i, name):
        return next(f["name"] for f in ents[(i, name)]["fields"] if f.get("role"))

    def refer_type(t):
        "Types that a field type refers to."
        if t[0] in ("list", "set"):
            refer_type(t[1])
        elif t[0] == "enum" and em == "TYPE" or t[0] == "extenum" and em == "TYPE" and len(members[(t[1], t[2])]) > 1:
            types[".".join(ident(opts, ns[t[1]], t[2]))] = {"enum": [str(v) for v in members[(t[1], t[2])]]}
        elif t[0] == "struct" and structs[(t[1], t[2])] is not None:
            s = structs[(t[1], t[2])]
            id = ".".join(ident(opts, ns[t[1]], t[2]))
            if sm == "TYPE" and id not in types:
                types[id] = {"members": [f["name"] for f in s["fields"]], "docs": [f.get("doc") for f in s["fields"]], "doc": S.effective_doc(s)}
            for f in s["fields"]:
                refer_type(f["type"])

    def user_type(t):
        "User-defined type that a column is expected to have, if any."
        if t[0] in ("list", "set"):
            return user_type(t[1]) if am == "ARRAY" else None
        if t[0] == "enum" and em == "TYPE" or t[0] == "struct" and sm == "TYPE":
            return ident(opts, ns[t[1]], t[2])
        return None

    def lookup(i, name):
        lookups[(i, name)] = ident(opts, ns[i], name)

    joins = []
    for (i, name), e in ents.items():
        columns, fks, uniques, checks, either = [], [], [], {}, {}
        for f in e["fields"]:
            t = f["type"]
            refer_type(t)
            if em == "RELATION" and t[0] in ("list", "set") and t[1][0] == "enum":
                lookup(t[1][1], t[1][2])
            if t[0] in ("list", "set") and (am == "RELATION" or t[1][0] == "ref"):
                target = ident(opts, ns[t[1][1]], t[1][2])
                tkey = key(t[1][1], t[1][2]) if t[1][0] == "ref" else "id"
                joins.append({"ns": ident(opts, ns[i], "")[0], "prefix": ns[i] if dialect in S.PREFIXED else None, "fks": [[ident(opts, ns[i], name), [key(i, name)]], [target, [tkey]]], "unique": t[0] == "set"})
                continue
            if S.is_member(f.get("default")):
                # an entry of a lookup table has no number before it is inserted
                declared = S.member_value(spec, f)
                declared = None if em == "RELATION" or t[0] == "extenum" else declared if em == "CHECK" else str(declared)
            else:
                declared = default_value(f["default"]) if f.get("default") is not None else None
            columns.append({
                "name": f["name"],
                "nullable": bool(f.get("opt")) and not f.get("role"),
                "default": declared,
                "identity": f.get("role") == "id",
                "doc": f.get("doc"),
                "user_type": user_type(t),
                "labels": [str(v) for v in members[(t[1], t[2])]] if t[0] == "enum" and em == "INLINE" else None,
            })
            if f.get("unique") and unique:
                uniques.append([f["name"]])
            if t[0] == "ref" and foreign:
                fks.append([[f["name"]], ident(opts, ns[t[1]], t[2]), [key(t[1], t[2])]])
            if t[0] == "dref" and foreign:
                either[f["name"]] = sorted([ident(opts, ns[a], b), [key(a, b)]] for a, b in t[1])
            if t[0] == "enum" and em == "RELATION" or t[0] == "extenum":
                lookup(t[1], t[2])
                fks.append([[f["name"]], ident(opts, ns[t[1]], t[2]), ["id"]])
            if t[0] == "enum" and em == "CHECK" and check:
                checks[f["name"]] = {"in": members[(t[1], t[2])]}
            if t[0] == "range":
                checks[f["name"]] = {"range": [t[1], t[2]]}
        tables.append({
            "id": ident(opts, ns[i], name),
            "columns": columns,
            "pk": [key(i, name)],
            "uniques": sorted(uniques),
            "fks": sorted(fks),
            "checks": checks,
            "either": either,
            "doc": S.effective_doc(e),
        })
    for (i, name), id in lookups.items():
        value = {"name": "value", "nullable": False, "default": None, "identity": False, "doc": None, "user_type": None, "labels": None}
        tables.append({
            "id": id,
            "columns": [{**value, "name": "id", "identity": True}, value],
            "pk": ["id"],
            "uniques": [["value"]],
            "fks": [],
            "checks": {},
            "either": {},
            "doc": None,
            "values": [v for v in members[(i, name)]] if opts.get("initialize_tables") else None,
        })
    return {"tables": {".".join(t.pop("id")): t for t in tables}, "types": types, "joins": joins}


def observed(catalog):
    "A schema model of the code under test in the same form; join tables are among the tables."
    from pysqlsync.formation.object_types import CheckConstraint, DiscriminatedConstraint, EnumTable, ForeignConstraint, UniqueConstraint
    from pysqlsync.model.data_types import SqlArrayType, SqlEnumType, SqlUserDefinedType

    def key(id):
        return [id.scope_id or "", id.local_id]

    def user_type(t):
        if isinstance(t, SqlArrayType):
            return user_type(t.element_type)
        return key(t.ref) if isinstance(t, SqlUserDefinedType) and t.ref.quoted_id.startswith('"') else None

    tables, types, namespaces = {}, {}, []
    for ns in catalog.namespaces.values():
        namespaces.append(ns.name.local_id)
        for e in ns.enums.values():
            types[".".join(key(e.name))] = {"enum": list(e.values)}
        for s in ns.structs.values():
            types[".".join(key(s.name))] = {"members": [m.name.local_id for m in s.members.values()], "docs": [m.description for m in s.members.values()], "doc": s.description}
        for t in ns.tables.values():
            cs = list(t.constraints.values())
            tables[".".join(key(t.name))] = {
                "namespace": ns.name.local_id,
                "columns": [
                    {"name": c.name.local_id, "nullable": bool(c.nullable), "default": c.default, "identity": bool(c.identity), "doc": c.description, "user_type": user_type(c.data_type), "labels": list(c.data_type.values) if isinstance(c.data_type, SqlEnumType) else None}
                    for c in t.columns.values()
                ],
                "pk": [x.local_id for x in t.primary_key],
                "uniques": sorted([x.local_id for x in c.unique_columns] for c in cs if isinstance(c, UniqueConstraint)),
                "fks": sorted([[x.local_id for x in c.foreign_columns], key(c.reference.table), [x.local_id for x in c.reference.columns]] for c in cs if isinstance(c, ForeignConstraint)),
                "checks": [c.condition for c in cs if isinstance(c, CheckConstraint)],
                "either": {c.foreign_columns[0].local_id: sorted([key(r.table), [x.local_id for x in r.columns]] for r in c.references) for c in cs if isinstance(c, DiscriminatedConstraint)},
                "doc": t.description,
                "values": list(t.values) if isinstance(t, EnumTable) else None,
            }
    return {"tables": tables, "types": types, "namespaces": namespaces}
