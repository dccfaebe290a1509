"C20: tab-separated exchange is lossless."

import dataclasses
import datetime
import decimal
import enum
import io
import ipaddress
import typing
import uuid
from typing import Annotated, Optional, Union

from hypothesis import strategies as st

from codec import dec, enc, same
from drivers import run_async
from pysqlsync.data.exchange import AsyncTextReader, TextReader, TextWriter, fields_to_types
from pysqlsync.model.key_types import PrimaryKey, Unique
from vh import Part, Result, Violation, check

PROPERTY = "C20"
RULE = (
    "A case is a data class (1-6 fields over every supported column kind, optional or not), an optional renaming and "
    "reordering of its columns, and 0-12 records drawn with weight on NULL, empty text, tabs, line breaks, backslashes "
    "and non-ASCII text; it is written and read back through all four reading interfaces. Non-trivial: at least one "
    "record holding at least one of these awkward values, or a renamed/reordered header."
)
ASSUMPTIONS = [
    "column names in the header contain no tab or line break",
    "date-times and times are naive (the format stores UTC and reads back naive values)",
    "the installed tsv2py parser is trusted for single values; record framing, order and mapping are checked",
]


class Color(enum.Enum):
    red = "red"
    tab = "a\tb"
    empty = ""
    accent = "é\\n"


@dataclasses.dataclass
class Referenced:
    key: PrimaryKey[int]
    text: str


def _text():
    awkward = st.sampled_from(["", "\t", "\n", "\\", "\\N", "\r", "\r\n", "\x00", "\\t", "a\tb\nc", "\\\\", "é", "\u2028", "😀", " ", "NULL"])
    return st.one_of(
        awkward,
        st.text(st.characters(exclude_categories=("Cs",)), max_size=6),
        st.lists(st.sampled_from(list("\t\n\\Nnrt0ab")), max_size=5).map("".join),
    )


KINDS = {
    "bool": (bool, lambda: st.booleans()),
    "int": (int, lambda: st.one_of(st.integers(-(10**20), 10**20), st.integers(-3, 3))),
    "float": (float, lambda: st.floats(allow_nan=False, allow_infinity=False)),
    "str": (str, _text),
    "bytes": (bytes, lambda: st.one_of(st.binary(max_size=6), st.sampled_from([b"", b"\t", b"\n", b"\\N", b"\\", b"\x00"]))),
    "datetime": (datetime.datetime, lambda: st.datetimes()),
    "date": (datetime.date, lambda: st.dates()),
    "time": (datetime.time, lambda: st.times()),
    "decimal": (decimal.Decimal, lambda: st.decimals(allow_nan=False, allow_infinity=False, places=4, min_value=-(10**9), max_value=10**9)),
    "uuid": (uuid.UUID, lambda: st.uuids()),
    "ipv4": (ipaddress.IPv4Address, lambda: st.ip_addresses(v=4)),
    "ipv6": (ipaddress.IPv6Address, lambda: st.ip_addresses(v=6)),
    "ip": (Union[ipaddress.IPv4Address, ipaddress.IPv6Address], lambda: st.ip_addresses()),
    "list_int": (list[int], lambda: st.lists(st.integers(-5, 5), max_size=3)),
    "list_str": (list[str], lambda: st.lists(_text(), max_size=3)),
    "dict": (dict[str, str], lambda: st.dictionaries(_text(), _text(), max_size=3)),
    "enum": (Color, lambda: st.sampled_from([c.value for c in Color])),
    "literal": (typing.Literal["x", "y\t"], lambda: st.sampled_from(["x", "y\t"])),
    "ref": (Referenced, lambda: st.integers(0, 9)),
    "unique": (Unique[str], _text),
    "annotated": (Annotated[str, "note"], _text),
}


@st.composite
def _case(draw):
    n = draw(st.integers(1, 6))
    if draw(st.integers(0, 4)) == 0:
        n = 1
    kinds = draw(st.lists(st.one_of(st.just("str"), st.sampled_from(sorted(KINDS))), min_size=n, max_size=n))
    fields = []
    for i, kind in enumerate(kinds):
        fields.append([f"f{i}", kind, draw(st.booleans())])
    if draw(st.booleans()):
        names = draw(
            st.lists(
                st.text(st.characters(exclude_categories=("Cs",), exclude_characters="\t\n\r"), min_size=1, max_size=5),
                min_size=n, max_size=n, unique=True,
            )
        )
        # reuse of field names for other columns is the treacherous case
        if draw(st.booleans()):
            names = draw(st.permutations([f[0] for f in fields]))
        order = draw(st.permutations(range(n)))
        mapping = [[fields[i][0], names[i]] for i in order]
    else:
        mapping = None
    row = []
    for _, kind, optional in fields:
        s = KINDS[kind][1]().map(enc)
        row.append(st.one_of(st.none(), s) if optional else s)
    records = draw(st.lists(st.tuples(*row).map(list), max_size=12))
    return {"fields": fields, "mapping": mapping, "records": records}


def _awkward(v) -> bool:
    if v is None:
        return True
    if isinstance(v, str):
        return v == "" or any(c in "\t\n\r\\\x00" or ord(c) > 127 for c in v)
    if isinstance(v, bytes):
        return v == b"" or any(c in b"\t\n\r\\\x00" or c > 127 for c in v)
    if isinstance(v, (list, dict)):
        return True
    return False


class AsyncStream:
    def __init__(self, data: bytes):
        self.stream = io.BytesIO(data)

    async def readline(self, limit: int = -1) -> bytes:
        return self.stream.readline(limit)


def _run(spec):
    cls = dataclasses.make_dataclass(
        "Exchanged",
        [(name, Optional[KINDS[kind][0]] if optional else KINDS[kind][0]) for name, kind, optional in spec["fields"]],
    )
    cls.__module__ = __name__
    mapping = {a: b for a, b in spec["mapping"]} if spec["mapping"] is not None else None
    records = [[dec(v) for v in r] for r in spec["records"]]
    kinds = {name: kind for name, kind, _ in spec["fields"]}
    names = [f[0] for f in spec["fields"]]

    objects = []
    for r in records:
        values = {}
        for (name, kind, _), v in zip(spec["fields"], r):
            values[name] = Color(v) if kind == "enum" and v is not None else v
        objects.append(cls(**values))

    stream = io.BytesIO()
    writer = TextWriter(stream, cls, mapping)
    half = len(objects) // 2
    writer.write_objects(objects[:half])
    writer.write_objects(objects[half:])
    data = stream.getvalue()

    order = list(mapping) if mapping is not None else names
    columns = tuple(mapping.values()) if mapping is not None else tuple(names)
    expected = [tuple(r[names.index(name)] for name in order) for r in records]
    types_by_name = fields_to_types(cls, mapping)
    check(set(types_by_name) == set(columns), lambda: f"types for columns {sorted(types_by_name)}; expected {sorted(columns)}")

    def compare(what, got, cols):
        check(tuple(cols) == columns, lambda: f"{what}: columns {cols!r}; expected {columns!r}")
        got = [tuple(g) for g in got]
        check(len(got) == len(expected), lambda: f"{what}: {len(got)} records read back; expected {len(expected)}")
        for g, e in zip(got, expected):
            check(same(g, e), lambda: f"{what}: read {g!r}; expected {e!r}")

    r = TextReader(io.BytesIO(data), types_by_name)
    compare("read_records", r.read_records(), r.columns)
    check(len(r.field_types) == len(columns), "field_types does not match the columns")
    for c, t in zip(r.columns, r.field_types):
        check(t == types_by_name[c], lambda: f"type of column {c!r}")
    r = TextReader(io.BytesIO(data), types_by_name)
    compare("records", list(r.records()), r.columns)

    async def readall():
        r = AsyncTextReader(AsyncStream(data), types_by_name)
        await r.read_header()
        return await r.read_records(), r.columns, r.field_types

    rows, cols, ftypes = run_async(readall())
    compare("async read_records", rows, cols)
    check(tuple(ftypes) == tuple(types_by_name[c] for c in columns), "asynchronous field_types do not match the columns")

    async def iterate():
        r = AsyncTextReader(AsyncStream(data), types_by_name)
        await r.read_header()
        return [x async for x in r.records()], r.columns

    rows, cols = run_async(iterate())
    compare("async records", rows, cols)

    awkward = any(_awkward(v) for row in expected for v in row)
    return Result(
        nontrivial=bool(records) and (awkward or mapping is not None),
        labels=tuple(
            l
            for l, c in (
                ("single column", len(names) == 1),
                ("renamed", mapping is not None),
                ("blank line record", any(row == ("",) or row == (b"",) for row in expected)),
                ("no records", not records),
            )
            if c
        ),
    )


PARTS = [
    Part(
        "roundtrip",
        _case,
        _run,
        quick=6000,
        thorough=150000,
        corpus=[
            {"fields": [["f0", "str", False]], "mapping": None, "records": [["a"], [""], ["b"]]},
            {"fields": [["f0", "str", True]], "mapping": None, "records": [[None], [""], ["\\N"]]},
        ],
    )
]
