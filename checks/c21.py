"C21: connection strings decode exactly and passwords stay secret."

import logging
from urllib.parse import quote

from hypothesis import strategies as st

from pysqlsync.connection import ConnectionParameters, ConnectionSSLMode
from pysqlsync.factory import get_parameters
from vh import Part, Result, Violation, check, check_equal

PROPERTY = "C21"
RULE = (
    "A case is a dialect, host (name, IPv4 or bracketed IPv6), optional port, user, password, database and SSL mode; the "
    "texts are drawn from all of Unicode with weight on the delimiters of a URL, and are percent-encoded minimally, fully, in "
    "lower case, or except for the delimiters that RFC 3986 permits. It is parsed, printed, and the printed text parsed again. Invalid SSL parameters are generated separately. "
    "Non-trivial: a component holds a character that must be percent-encoded, or the SSL parameter is malformed."
)
ASSUMPTIONS = [
    "user, password and database are absent or non-empty; the port is absent or 1-65535; the host is given and in lower case "
    "(host names are case-insensitive)",
    "printed means str() and format(), as used in log messages",
]

MODES = [m.value for m in ConnectionSSLMode]


def _texts(min_size=1):
    delimiters = st.text(st.sampled_from(list(":/@?#%&=+ []\\'\";,~.-_ab0\t\n")), min_size=min_size, max_size=8)
    anything = st.text(st.characters(exclude_categories=("Cs",)), min_size=min_size, max_size=8)
    tricky = st.sampled_from(["%", "%41", "%2F", "/", "//x", "+", "a+b", "é", "日本", "a%zzb", "?ssl=disable", "@host", "[::1]", "None", " "])
    return st.one_of(delimiters, anything, tricky)


def _host():
    label = st.text(st.sampled_from(list("abcxyz019-")), min_size=1, max_size=6).map(lambda s: "h" + s + "z")
    return st.one_of(
        st.lists(label, min_size=1, max_size=3).map(".".join),
        st.ip_addresses(v=4).map(str),
        st.ip_addresses(v=6).map(str),
    )


@st.composite
def _case(draw):
    user = draw(st.one_of(st.none(), _texts()))
    return {
        "dialect": draw(st.sampled_from(["postgresql", "mysql", "mssql", "oracle", "redshift", "x-y+z.1"])),
        "host": draw(_host()),
        "port": draw(st.one_of(st.none(), st.integers(1, 65535))),
        "user": user,
        "password": draw(st.one_of(st.none(), _texts())) if user is not None or draw(st.booleans()) else None,
        "database": draw(st.one_of(st.none(), _texts())),
        "ssl": draw(st.one_of(st.none(), st.sampled_from(MODES))),
        "encoding": draw(st.sampled_from(["minimal", "full", "lower", "mixed", "lenient", "lenient"])),
        "extra": draw(st.sampled_from(["", "", "a=b", "application=x%26ssl%3Ddisable", "ssl_mode=x"])),
        "slash": draw(st.booleans()),
    }


def _encode(text: str, how: str, more: str = "") -> str:
    if how == "lenient":
        # RFC 3986 permits sub-delimiters to be left as they are in user information and in a path
        return quote(text, safe="-._~!$&'()*+,;=" + more)
    if how == "minimal":
        return quote(text, safe="-._~")
    if how == "full":
        return "".join(f"%{b:02X}" for b in text.encode("utf-8"))
    if how == "lower":
        return "".join(f"%{b:02x}" for b in text.encode("utf-8"))
    return "".join(
        chr(b) if chr(b).isalnum() and b < 128 and i % 2 else f"%{b:02X}" for i, b in enumerate(text.encode("utf-8"))
    )


def _run(spec):
    host = f"[{spec['host']}]" if ":" in spec["host"] else spec["host"]
    how = spec["encoding"]
    auth = ""
    if spec["user"] is not None:
        auth = _encode(spec["user"], how)
    if spec["password"] is not None:
        auth += ":" + _encode(spec["password"], how)
    if auth:
        auth += "@"
    port = f":{spec['port']}" if spec["port"] is not None else ""
    db = f"/{_encode(spec['database'], how, ':@')}" if spec["database"] is not None else ("/" if spec["slash"] else "")
    params = []
    if spec["extra"]:
        params.append(spec["extra"])
    if spec["ssl"] is not None:
        params.append(f"ssl={spec['ssl']}")
    query = "?" + "&".join(params) if params else ""
    url = f"{spec['dialect']}://{auth}{host}{port}{db}{query}"

    dialect, p = get_parameters(url)
    check_equal(dialect, spec["dialect"], f"dialect of {url!r}")
    check_equal(p.host, spec["host"], f"host of {url!r}")
    check_equal(p.port, spec["port"], f"port of {url!r}")
    check_equal(p.username, spec["user"], f"user of {url!r}")
    check_equal(p.password, spec["password"], f"password of {url!r}")
    # an empty path names no database
    check_equal(p.database or None, spec["database"], f"database of {url!r}")
    expected_ssl = ConnectionSSLMode(spec["ssl"]) if spec["ssl"] is not None else None
    check_equal(p.ssl, expected_ssl, f"SSL mode of {url!r}")

    # printing
    full = ConnectionParameters(
        host=spec["host"],
        port=spec["port"],
        username=spec["user"],
        password=spec["password"],
        database=spec["database"],
        ssl=expected_ssl,
    )
    bare = ConnectionParameters(
        host=spec["host"], port=spec["port"], username=spec["user"], database=spec["database"], ssl=expected_ssl
    )
    text = str(full)
    # non-interference: what is printed does not depend on the password
    other = ConnectionParameters(**{**full.__dict__, "password": "another"})
    check(text == str(bare) == str(other) == f"{full}" == "%s" % full, lambda: f"printed text depends on the password: {text!r}")

    _, again = get_parameters(f"{spec['dialect']}://{text}")
    check_equal(again.password, None, f"password in printed {text!r}")
    for name in ("host", "port", "username", "database", "ssl"):
        check_equal(getattr(again, name) or None, getattr(bare, name), f"{name} of printed {text!r}")

    special = any(
        c not in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"
        for t in (spec["user"], spec["password"], spec["database"])
        if t
        for c in t
    )
    return Result(
        nontrivial=special,
        labels=tuple(n for n in ("user", "password", "database", "ssl", "port") if spec[n] is not None)
        + (("ipv6",) if ":" in spec["host"] else ()),
    )


@st.composite
def _bad(draw):
    near = st.sampled_from(MODES).flatmap(
        lambda m: st.sampled_from([m.upper(), m + "x", m[:-1], " " + m, m.replace("-", "_") + "_", "verify_ca", "verify_full", "true", "1", "require,disable"])
    )
    if draw(st.booleans()):
        value = draw(st.one_of(near, _texts()))
        return {"kind": "unknown", "values": [value]}
    values = draw(st.lists(st.sampled_from(MODES), min_size=2, max_size=4))
    return {"kind": "repeated", "values": values, "gap": draw(st.booleans())}


def _run_bad(spec):
    if spec["kind"] == "unknown" and spec["values"][0] in MODES:
        return Result(nontrivial=False)
    sep = "&x=y&" if spec.get("gap") else "&"
    url = "mysql://user:pw@host.test:1/db?" + sep.join("ssl=" + quote(v, safe="") for v in spec["values"])
    try:
        _, p = get_parameters(url)
    except ValueError:
        return Result(labels=(spec["kind"],))
    raise Violation(f"{url!r} accepted with SSL mode {p.ssl!r}")


PARTS = [
    Part(
        "decode",
        _case,
        _run,
        quick=8000,
        thorough=200000,
        corpus=[
            {"dialect": "postgresql", "host": "::1", "port": 5432, "user": "u", "password": "p", "database": "a/b c", "ssl": "require", "encoding": "minimal", "extra": "", "slash": False}
        ],
    ),
    Part("reject", _bad, _run_bad, quick=2000, thorough=40000),
]
