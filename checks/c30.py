"""
C30: tables mirror entity classes.

The schema model made from generated classes is compared, table by table, with one derived from the specification alone.
"""

from hypothesis import strategies as st

import copy

import derive
import schema as S
import sqllex
from vh import Part, Result, check, check_equal

PROPERTY = "C30"
RULE = "the classes have a reference, an enumeration, a relation or a constraint, and at least three columns"
ASSUMPTIONS = [
    "names of constraints and of join tables and their columns are not part of the property; what they connect is",
    "join tables refer to both sides even if foreign constraints are disabled, as do columns with a lookup table",
    "Delta Lake, Snowflake and Redshift have no unique and foreign key constraints (the dialect leaves them out)",
]


@st.composite
def cases(draw, dialects=S.ALL, **kw):
    o = draw(S.options(dialects))
    return {"opts": o, "spec": draw(S.schemas(o, **kw)), "by": draw(st.sampled_from(["modules", "tables"]))}


def condition_values(condition, dialect):
    "Reads a check condition: column, and the bounds or the values it admits."
    toks = [t for t in sqllex.tokenize(condition, dialect) if t[1] not in ("(", ")", ",")]
    cols = {v for k, v in toks if k == "id"}
    check(len(cols) == 1, f"check constraint involves columns {cols}: {condition}")
    words = [v.upper() if k == "word" else v for k, v in toks if k in ("word", "op")]
    vals, sign = [], 1
    for k, v in toks:
        if k == "op" and v == "-":
            sign = -1
        if k == "num":
            vals.append(sign * int(v))
            sign = 1
        elif k == "str":
            vals.append(v)
    ops = [w for w in words if w in (">=", "<=", "IN", "AND", ">", "<", "=", "OR", "NOT")]
    return cols.pop(), ops, vals


def compare(case, model):
    "Compares the model with the specification; raises on the first difference."
    opts, spec = case["opts"], case["spec"]
    dialect = opts["dialect"]
    want, got = derive.expected(spec, opts), derive.observed(model)
    tables = dict(got["tables"])
    for id, w in want["tables"].items():
        check(id in tables, lambda: f"no table {id}; there are {sorted(tables)}")
        t = tables.pop(id)
        check_equal([c["name"] for c in t["columns"]], [c["name"] for c in w["columns"]], f"columns of {id}")
        for c, x in zip(t["columns"], w["columns"]):
            what = f"{id}.{c['name']}"
            check_equal(c["nullable"], x["nullable"], f"{what} nullable")
            check_equal(c["identity"], x["identity"], f"{what} identity")
            check_equal(c["doc"], x["doc"], f"description of {what}")
            check_equal(c["user_type"], x["user_type"], f"user-defined type of {what}")
            check_equal(c["labels"], x["labels"], f"labels of {what}")
            if x["default"] is not None:
                check(derive.same_default(x["default"], c["default"]), lambda: f"default of {what} is {c['default']}, not {x['default']!r}")
            elif not opts.get("auto_default") or x["nullable"] or x["identity"] or x["name"] in w["pk"]:
                check(c["default"] is None, lambda: f"{what} has default {c['default']}")
        check_equal(t["pk"], w["pk"], f"primary key of {id}")
        check_equal(t["uniques"], w["uniques"], f"unique constraints of {id}")
        check_equal(t["fks"], w["fks"], f"references of {id}")
        check_equal(t["either"], w["either"], f"discriminated references of {id}")
        check_equal(t["doc"], w["doc"], f"description of {id}")
        if w.get("values") is not None:
            check_equal([str(v) for v in t["values"] or []], [str(v) for v in w["values"]], f"entries of {id}")
        elif "values" in w:
            check(not t["values"], f"{id} has entries {t['values']}")
        left = dict(w["checks"])
        for cond in t["checks"]:
            col, ops, vals = condition_values(cond, dialect)
            check(col in left, lambda: f"unexpected check constraint of {id}: {cond}")
            spec_c = left.pop(col)
            if "in" in spec_c:
                check(ops == ["IN"] and vals == spec_c["in"], lambda: f"check constraint of {id} is {cond}, not {spec_c}")
            else:
                check(ops == [">=", "AND", "<="] and vals == spec_c["range"], lambda: f"check constraint of {id} is {cond}, not {spec_c}")
        check(not left, lambda: f"{id} lacks check constraints for {left}")
    # join tables
    joins = list(want["joins"])
    for id, t in tables.items():
        cols = {c["name"]: c for c in t["columns"]}
        check(len(cols) == 3 and not any(c["nullable"] for c in cols.values()) and len(t["pk"]) == 1, lambda: f"unexpected table {id}: {t}")
        others = [n for n in cols if n not in t["pk"]]
        check(len(t["fks"]) == 2 and sorted(f[0][0] for f in t["fks"]) == sorted(others), lambda: f"join table {id} has references {t['fks']}")
        by_col = {f[0][0]: [f[1], f[2]] for f in t["fks"]}
        sides = [by_col[others[0]], by_col[others[1]]]
        for j in joins:
            local = id.split(".", 1)[1]
            scoped = id.split(".", 1)[0] == j["ns"] and (j["prefix"] is None or local.startswith(j["prefix"] + "__"))
            if j["fks"] == sides and scoped and t["uniques"] == ([[others[1]]] if j["unique"] else []):
                joins.remove(j)
                break
        else:
            check(False, f"unexpected join table {id} with references {t['fks']} and unique constraints {t['uniques']}; expected {joins}")
    check(not joins, lambda: f"no join table for {joins}")
    check_equal(got["types"], want["types"], "types")
    return want, got


def run(case):
    opts, spec = case["opts"], case["spec"]
    with S.Build(spec) as b:
        g = S.make_generator(opts, b)
        if case["by"] == "modules":
            g.create(modules=b.modules)
        else:
            g.create(tables=b.entities)
        want, _ = compare(case, g.state)
    rich = any(t["fks"] or t["uniques"] or t["checks"] or t["either"] for t in want["tables"].values()) or want["joins"]
    wide = sum(len(t["columns"]) for t in want["tables"].values()) >= 3
    em, sm, am = S.effective(opts)
    return Result(bool(rich and wide), [opts["dialect"], f"{em}/{sm}/{am}"] + (["joins"] if want["joins"] else []))


@st.composite
def noted_cases(draw):
    case = draw(cases())
    spec = copy.deepcopy(case["spec"])
    either = any(f["type"][0] == "dref" for m in spec["modules"] for c in m["entities"] for f in c["fields"])
    for m in spec["modules"]:
        for c in m["entities"] + m["structs"]:
            for f in c["fields"]:
                # targets of a discriminated reference need keys of the same type
                if draw(st.booleans()) and not (either and f.get("role")):
                    f["note"] = "x"
    return {**case, "noted": spec}


def run_noted(case):
    "Annotations that are declared irrelevant make no difference."
    models = []
    for spec, opts in ((case["spec"], case["opts"]), (case["noted"], {**case["opts"], "notes": True})):
        with S.Build(spec) as b:
            g = S.make_generator(opts, b)
            sql = g.create(modules=b.modules) if case["by"] == "modules" else g.create(tables=b.entities)
            models.append((repr(g.state.namespaces), sql))
    check_equal(models[1][0], models[0][0], "model of classes that have annotations to skip")
    check_equal(models[1][1], models[0][1], "script for classes that have annotations to skip")
    types = sorted({f["type"][0] for m in case["noted"]["modules"] for c in m["entities"] + m["structs"] for f in c["fields"] if f.get("note")})
    return Result(bool(types), types)


# ------------------------------------------------------------------------------------- enumerations of record values

PIECES = ["a", "B", "é", "日", "'", "\\", "''", "\\'", '"', ";", "--", "\n", "\t", " ", "%", "(", ",", "1", "TRUE", "NULL"]
RECORD_TYPES = {"str": "str", "max": "Annotated[str, MaxLength(40)]", "int": "int", "int16": "int16", "float": "float", "bool": "bool", "date": "datetime.date", "datetime": "datetime.datetime", "time": "datetime.time", "decimal": "decimal.Decimal"}



@st.composite
def record_value(draw, t):
    if t in ("str", "max"):
        return "".join(draw(st.lists(st.sampled_from(PIECES), max_size=5)))
    if t in ("int", "int16"):
        return draw(st.integers(-32768, 32767))
    if t == "float":
        return draw(st.sampled_from([0.0, 1.5, -2.25, 1e-7, 1e20, 0.1]))
    if t == "bool":
        return draw(st.booleans())
    h, m, s, us = draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59)), draw(st.sampled_from([0, 0, 1, 500000, 999999]))
    if t == "date":
        return [draw(st.integers(1, 9999)), draw(st.integers(1, 12)), draw(st.integers(1, 28))]
    if t == "time":
        return [h, m, s, us]
    if t == "datetime":
        # the last item is the offset from UTC in minutes, or nothing
        return [draw(st.integers(2, 9998)), draw(st.integers(1, 12)), draw(st.integers(1, 28)), h, m, s, us, draw(st.sampled_from([None, 0, 60, -330]))]
    return draw(st.sampled_from(["0", "1.50", "-3", "123456789.123456"]))


@st.composite
def record_cases(draw):
    o = draw(S.options(S.ALL, initialize_tables=draw(st.sampled_from([True, True, True, False]))))
    # an extensible enumeration has a lookup table in any mode
    single = o["dialect"] in ("delta", "snowflake") or draw(st.integers(0, 3)) == 0
    if not single:
        o["enum_mode"] = None if o["dialect"] == "redshift" else "RELATION"
    types = draw(st.lists(st.sampled_from(sorted(RECORD_TYPES)), min_size=1, max_size=5))
    names = draw(st.permutations(["code", "level", "value", "order", "größe", "at", "name"]))[: len(types)]
    docs = [draw(st.sampled_from([None, "A thing.", "The user's rate."])) for _ in types]
    rows = draw(st.lists(st.tuples(*[record_value(t) for t in types]).map(list), min_size=1 if single else 2, max_size=1 if single else 4, unique_by=repr))
    uses = draw(st.lists(st.sampled_from(["Union[{}, str]", "Union[{}, str, None]"] if single else ["{}", "Optional[{}]"]), min_size=1, max_size=2))
    return {"opts": o, "fields": [list(f) for f in zip(names, types, docs)], "rows": rows, "uses": uses, "ns": draw(st.sampled_from([None, "app"])), "unique": draw(st.integers(0, 5))}


def record_expr(t, v):
    if t == "date":
        return "datetime.date({}, {}, {})".format(*v)
    if t == "time":
        return "datetime.time({}, {}, {}, {})".format(*v)
    if t == "datetime":
        zone = "" if v[7] is None else f", tzinfo=datetime.timezone(datetime.timedelta(minutes={v[7]}))"
        return f"datetime.datetime({', '.join(map(str, v[:7]))}{zone})"
    return f"decimal.Decimal({v!r})" if t == "decimal" else repr(v)


def record_tokens(dialect, t, v):
    "Tokens that a value may be written with."
    import datetime
    import decimal

    if t in ("str", "max"):
        return [[("str", v)]]
    if t == "bool":
        word = [("word", "TRUE" if v else "FALSE")]
        number = [("num", "1" if v else "0")]
        return [number] if dialect == "mssql" else [word, number] if dialect == "mysql" else [word]
    if t in ("int", "int16", "float", "decimal"):
        return [("number", decimal.Decimal(repr(v) if t == "float" else str(v)))]
    if t == "date":
        text, prefix = datetime.date(*v).isoformat(), "DATE"
    elif t == "time":
        text, prefix = datetime.time(*v).isoformat(), "TIME"
        if dialect == "oracle":
            return [[("word", "INTERVAL"), ("str", f"0 {text}"), ("word", "DAY"), ("word", "TO"), ("word", "SECOND")]]
    else:
        at = datetime.datetime(*v[:7]) - datetime.timedelta(minutes=v[7] or 0)
        text, prefix = at.isoformat(sep=" "), "TIMESTAMP"
    typed = [("word", prefix), ("str", text)]
    # what a plain literal means in Oracle depends on settings of the session
    return [typed] if dialect == "oracle" else [[("str", text)], typed]


def read_value(toks):
    import decimal

    if toks and toks[-1][0] == "num":
        sign = [v for k, v in toks if k == "op"]
        check(sign in ([], ["-"]) and len(toks) == len(sign) + 1, lambda: f"not a value: {toks}")
        return ("number", (-1 if sign else 1) * decimal.Decimal(toks[-1][1]))
    return None


def run_records(case):
    import sys
    import types

    from pysqlsync.formation.object_types import UniqueConstraint

    opts, dialect = case["opts"], case["opts"]["dialect"]
    fields = case["fields"]
    pad = "    "
    doc = [f"{pad}:param {n}: {d}" for n, t, d in fields if d]
    unique = case["unique"]
    lines = [S.HEADER, "@dataclass(frozen=True)", "class Record:", f'{pad}"""A record.', "", *doc, f'{pad}"""', ""]
    lines += [f"{pad}{n}: " + (f"Unique[{RECORD_TYPES[t]}]" if k == unique else RECORD_TYPES[t]) for k, (n, t, _) in enumerate(fields)]
    lines += ["class Kind(enum.Enum):"] + [f"{pad}M{k} = Record(" + ", ".join(record_expr(t, v) for v, (_, t, _) in zip(row, fields)) + ")" for k, row in enumerate(case["rows"])]
    for k, use in enumerate(case["uses"]):
        lines += ["@dataclass", f"class Use{k}:", f"{pad}id: PrimaryKey[int]", f"{pad}kind: {use.format('Kind')}"]
    mod = types.ModuleType("vm_records")
    sys.modules[mod.__name__] = mod
    try:
        exec("\n".join(lines), mod.__dict__)

        class B:
            namespaces = {mod: case["ns"]}

        g = S.make_generator(opts, B)
        sql = g.create(modules=[mod])
        state = g.state
    finally:
        del sys.modules[mod.__name__]
    tables = {t.name.local_id: t for ns in state.namespaces.values() for t in ns.tables.values()}
    prefix = f"{case['ns']}__" if case["ns"] and dialect in S.PREFIXED else ""
    check_equal(sorted(tables), sorted([f"{prefix}Kind"] + [f"{prefix}Use{k}" for k in range(len(case["uses"]))]), "tables")
    table = tables[f"{prefix}Kind"]
    cols = [c for c in table.columns.values()]
    check_equal([c.name.local_id for c in cols], ["id"] + [f[0] for f in fields], "columns of the lookup table")
    check_equal([c.name.local_id for c in cols if c.identity], ["id"], "identity columns of the lookup table")
    check_equal([k.local_id for k in table.primary_key], ["id"], "primary key of the lookup table")
    check(not any(c.nullable for c in cols), "the lookup table has columns that take NULL")
    check_equal([c.description for c in cols[1:]], [f[2] for f in fields], "descriptions of columns of the lookup table")
    for k, use in enumerate(case["uses"]):
        t = tables[f"{prefix}Use{k}"]
        check_equal(next(c for c in t.columns.values() if c.name.local_id == "kind").nullable, use not in ("{}", "Union[{}, str]"), f"Use{k}.kind may be NULL")
        check_equal([(c.foreign_columns[0].local_id, c.reference.table.local_id) for c in t.constraints.values() if hasattr(c, "reference")], [("kind", table.name.local_id)], f"references of Use{k}")
    # values, in the order of columns
    try:
        stmts = [s for s in sqllex.split(sqllex.tokenize(sql, dialect)) if s[0] == ("word", "INSERT")]
    except sqllex.SqlSyntaxError as e:
        check(False, f"creation script is malformed: {e}\n{sql}")
    if not opts["initialize_tables"]:
        check(not stmts, lambda: f"entries are inserted into tables that are not to be initialized:\n{sql}")
        return Result(False, [dialect, "empty"])
    check_equal(len(stmts), 1, "statements that insert entries")
    start = next(i for i, t in enumerate(stmts[0]) if t == ("word", "VALUES"))
    check_equal([v for k, v in stmts[0][:start] if k == "id"][-len(fields) :], [f[0] for f in fields], "columns that entries are inserted into")
    got, depth = [], 0
    for tok in stmts[0][start + 1 :]:
        if tok[1] == "(" and tok[0] not in ("str", "id"):
            depth += 1
            if depth == 1:
                got.append([[]])
        elif tok[1] == ")" and tok[0] not in ("str", "id"):
            depth -= 1
        elif tok[1] == "," and tok[0] not in ("str", "id"):
            if depth == 1:
                got[-1].append([])
        else:
            check(depth == 1, lambda: f"unexpected {tok} in values:\n{sql}")
            got[-1][-1].append(tok)
    check_equal([len(r) for r in got], [len(fields)] * len(case["rows"]), "number of values in each entry")
    for r, row in zip(got, case["rows"]):
        for toks, v, (n, t, _) in zip(r, row, fields):
            want = record_tokens(dialect, t, v)
            toks = [(k, x.upper() if k == "word" else x) for k, x in toks]
            check(toks in want or read_value(toks) in want, lambda: f"value {v!r} of {n} ({t}) is written {toks}")
    if dialect in S.RELATIONAL + ("redshift",):
        import refdb

        db = refdb.RefDB(dialect)
        try:
            db.execute(sql)
        except (refdb.DBError, sqllex.SqlSyntaxError) as e:
            check(False, f"creation script fails: {e}\n{sql}")
        rows = next(t for k, t in db.tables.items() if k[1] == table.name.local_id).rows
        check_equal([r["id"] for r in rows], list(range(1, len(case["rows"]) + 1)), "keys of entries")
        for j, (n, t, _) in enumerate(fields):
            if t in ("str", "max"):
                check_equal([r[n] for r in rows], [row[j] for row in case["rows"]], f"entries of {n}")
    return Result(len(fields) > 1, [dialect] + sorted({t for _, t, _ in fields}))


PARTS = [
    Part("records", record_cases, run_records, quick=300, thorough=8000),
    Part("noted", noted_cases, run_noted, quick=400, thorough=8000),
    Part("classes", cases, run, quick=1000, thorough=25000),
    Part("one", lambda: cases(max_modules=1, max_entities=2), run, quick=500, thorough=10000),
]
