"Migrations on the reference database: shared by the checks of migration, synchronisation and removal permissions."

import re

import refdb
import schema as S
import sqllex
from vh import check

FormationError = None


def formation_error():
    from pysqlsync.formation.object_types import FormationError

    return FormationError


def target_model(opts, build):
    "The schema model of a set of classes, made by a generator of its own."
    g = S.make_generator(opts, build)
    g.create(modules=build.modules)
    return g.state


def used_types(snap):
    "Names of types that columns of tables use, directly or as members of other types."
    used, pending = set(), [c["type"] for t in snap["tables"].values() for c in t["columns"].values()]
    while pending:
        for a, b in re.findall(r'"([^"]+)"(?: \. "([^"]+)")?', pending.pop()):
            name = f"{a}.{b}" if b else f".{a}"
            if name in snap["types"] and name not in used:
                used.add(name)
                pending += snap["types"][name].get("members", {}).values()
    return used


def refusal_reasons(opts, before, after):
    "Why a migration between two expected snapshots may (or must) be refused: a list of (kind, what)."
    out = []
    used = used_types(before)
    dialect = opts["dialect"]
    for name, t in before["types"].items():
        u = after["types"].get(name)
        if u and "enum" in t and "enum" in u:
            if set(t["enum"]) - set(u["enum"]):
                out.append(("enum", name))
        if u and "members" in t and "members" in u:
            for m, ty in t["members"].items():
                if name in used and u["members"].get(m, ty) != ty:
                    out.append(("member", f"{name}.{m}"))
    for name, t in before["tables"].items():
        u = after["tables"].get(name)
        if not u:
            continue
        if t["pk"] != u["pk"]:
            out.append(("pk", name))
        for cn, c in t["constraints"].items():
            d = u["constraints"].get(cn)
            if d and d != c:
                out.append(("constraint", f"{name}.{cn}"))
        for cn, c in t["columns"].items():
            d = u["columns"].get(cn)
            if not d:
                continue
            if c["identity"] != d["identity"] and (dialect == "mssql" or dialect == "oracle" and d["identity"]):
                out.append(("identity", f"{name}.{cn}"))
            if c["type"] != d["type"] and is_text(c["type"], before) and is_integer(d["type"]):
                if not any(k["kind"] == "fk" and k["cols"] == [cn] for k in u["constraints"].values()):
                    out.append(("data", f"{name}.{cn}"))
    return out


def is_text(t, snap):
    if t.lower().startswith(("character", "varchar", "nvarchar", "enum", "text", "mediumtext", "clob", "char")):
        return True
    name = t.strip('"').replace('" . "', ".")
    return name in snap["types"] or "." + name in snap["types"]


def is_integer(t):
    return t.split(" ")[0].lower() in ("smallint", "integer", "int", "bigint", "tinyint", "number")


def created(opts, build):
    "Generator and database after creating the schema of a build."
    g = S.make_generator(opts, build)
    sql = g.create(modules=build.modules)
    db = refdb.RefDB(opts["dialect"])
    db.relax_df_names = True
    if sql:
        db.execute(sql)
    return g, db


def execute(db, sql, what="migration script"):
    try:
        db.execute(sql)
    except (refdb.DBError, sqllex.SqlSyntaxError) as e:
        check(False, f"{what} fails: {e}\n{sql}")


def silence(snap):
    "Takes descriptions out of a snapshot."
    for t in snap["tables"].values():
        for x in (t, *t["columns"].values()):
            x["comment"] = None
    return snap


def matches(db, model, dialect, sql, what="schema after migration differs from target", described=True):
    have, wanted = db.snapshot(), S.expected(model, dialect)
    d = S.diff(have, wanted) if described else S.diff(silence(have), silence(wanted))
    check(not d, lambda: f"{what}: " + "; ".join(d[:5]) + "\n" + str(sql))


# --------------------------------------------------------------------------------------------------------------- rows


def populate(db, seed, rows=3, skip=()):
    """
    Inserts rows in all tables of a database, whose values are distinct within each column (labels repeat).

    Tables whose required references cannot be satisfied remain empty.
    """
    import random

    rnd = random.Random(seed)
    db_types = {".".join(k): v for k, v in db.types.items()}
    pending = [k for k in db.tables if k not in skip]
    done = set()
    while pending:
        ready = [k for k in pending if all(c.kind != "fk" or c.ref in done or c.ref == k or all(db.tables[k].cols[x].nullable for x in c.cols) for c in db.tables[k].cons.values())]
        # with required references in a cycle, tables remain empty
        batch = ready or pending
        for k in batch:
            t = db.tables[k]
            start = len(t.rows)
            n = rnd.choice([1, 2, rows, rows, 0]) if k[1] not in () else 0
            for i in range(start, start + n):
                row = make_row(db, db_types, t, i, rnd)
                if row is None:
                    continue
                try:
                    db._do_insert(k, row)
                except refdb.DBError:
                    pass  # e.g. a pair of references that exists already
            done.add(k)
            pending.remove(k)
    return db


def make_row(db, db_types, t, i, rnd):
    row = {}
    fks = {c.cols[0]: c for c in t.cons.values() if c.kind == "fk" and len(c.cols) == 1}
    checks = {}
    for c in t.cons.values():
        if c.kind == "check":
            labels = [v for k, v in c.expr if k == "str"]
            for x in c.cols:
                checks[x] = labels
    for n, c in t.cols.items():
        if c.identity:
            continue
        if c.nullable and n not in t.pk and rnd.random() < 0.3:
            row[n] = None
            continue
        if n in fks:
            ref = db.tables[fks[n].ref]
            if ref.rows:
                row[n] = rnd.choice(ref.rows)[fks[n].refcols[0]]
            elif c.nullable:
                row[n] = None
            else:
                return None
            continue
        row[n] = make_value(db_types, c, i, rnd, checks.get(n))
    return row


def make_value(db_types, c, i, rnd, labels):
    ty = c.type
    if labels:
        return rnd.choice(labels)
    if ty[0] == ("word", "ENUM"):
        return rnd.choice([v for k, v in ty if k == "str"])
    array = ty[-1] == ("word", "ARRAY")
    name = ".".join(v for k, v in ty if k == "id")
    for cand in (name, "." + name):
        e = db_types.get(cand)
        if e is not None and hasattr(e, "values"):
            v = rnd.choice(e.values)
            return [v] if array else v
    head = ty[0][1] if ty[0][0] == "word" else ""
    if head in ("SMALLINT", "INTEGER", "INT", "BIGINT", "TINYINT", "NUMBER", "DECIMAL", "NUMERIC", "REAL", "DOUBLE", "FLOAT"):
        return i + 1
    if head in ("BOOLEAN", "BIT"):
        return bool(i % 2)
    nums = [int(v) for k, v in ty if k == "num"]
    text = f"{i}v"
    return text[: nums[0]] if nums and nums[0] > 0 and head in ("VARCHAR", "CHAR", "VARCHAR2", "NVARCHAR") else text


def contents(db):
    return {k: [dict(r) for r in t.rows] for k, t in db.tables.items()}
