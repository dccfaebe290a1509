"C28: SSL mode decides exactly which connections are attempted."

import datetime
import inspect
import io
import logging
import os
import re
import ssl
import tempfile
from collections import namedtuple
from urllib.parse import quote

import aiomysql
import aiotrino
import asyncpg
import oracledb
import pymysql
import pyodbc
import redshift_connector
from hypothesis import strategies as st

import drivers
from drivers import Backend, FakeAiomysql, FakeAsyncpg, FakeOracle, FakePyodbc, run_async
from pysqlsync.connection import ConnectionParameters, ConnectionSSLMode, create_context
from pysqlsync.factory import get_dialect
from vh import Part, Result, Violation, check, check_equal

PROPERTY = "C28"
RULE = (
    "Part 'attempts': a dialect (PostgreSQL, MySQL), an SSL mode, connection parameters, and an outcome for each of up to four "
    "connection attempts (success, or one of several driver failures); the driver's connect function is a stand-in that records its "
    "arguments. Part 'credentials': parameters with delimiter characters for all dialects. Part 'handshake': the SSL context of each mode completes "
    "(or must refuse) a real in-memory TLS handshake with a server that is trusted or not and bears the right or a wrong host name. "
    "Non-trivial: the first attempt fails, or the parameters hold delimiters, or the handshake is with an untrusted or misnamed server."
)
ASSUMPTIONS = [
    "asyncpg: ssl=None lets the driver negotiate (documented default 'prefer'), ssl=False is a plain connection, an SSLContext is an encrypted one",
    "aiomysql: ssl=None is a plain connection, an SSLContext is an encrypted one",
    "a connection failure is ConnectionError or InvalidAuthorizationSpecificationError (asyncpg) and OperationalError (aiomysql); after any other error "
    "both giving up and trying the second option are accepted",
]

MODES: list = [None] + [m.value for m in ConnectionSSLMode]
SEQUENCES = {
    "disable": ["plain"],
    "prefer": ["encrypted", "plain"],
    "allow": ["plain", "encrypted"],
    "require": ["encrypted"],
    "verify-ca": ["encrypted"],
    "verify-full": ["encrypted"],
}
VERIFY = {"prefer": 0, "allow": 0, "require": 0, "verify-ca": 1, "verify-full": 2}


class AsyncpgWithVersion(FakeAsyncpg):
    def get_server_version(self):
        return namedtuple("V", "major minor micro releaselevel")(16, 1, 0, "final")


FAILURES = {
    "postgresql": {
        "refused": (True, lambda: ConnectionRefusedError("refused")),
        "reset": (True, lambda: ConnectionResetError("reset")),
        "rejected": (True, lambda: ConnectionError("PostgreSQL server rejected SSL upgrade")),
        "hba": (True, lambda: asyncpg.InvalidAuthorizationSpecificationError("no pg_hba.conf entry, no encryption")),
        "timeout": (False, lambda: TimeoutError("timed out")),
        "value": (False, lambda: ValueError("other")),
    },
    "mysql": {
        "refused": (True, lambda: pymysql.err.OperationalError(2003, "Can't connect")),
        "secure": (True, lambda: pymysql.err.OperationalError(3159, "require_secure_transport")),
        "denied": (True, lambda: pymysql.err.OperationalError(1045, "Access denied")),
        "internal": (False, lambda: pymysql.err.InternalError("other")),
        "value": (False, lambda: ValueError("other")),
    },
}


class LogCapture:
    def __enter__(self):
        self.stream = io.StringIO()
        self.handler = logging.StreamHandler(self.stream)
        self.logger = logging.getLogger("pysqlsync")
        self.saved = (self.logger.level, self.logger.propagate)
        self.logger.addHandler(self.handler)
        self.logger.setLevel(logging.DEBUG)
        self.logger.propagate = False
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *args):
        self.logger.removeHandler(self.handler)
        self.logger.setLevel(self.saved[0])
        self.logger.propagate = self.saved[1]
        logging.disable(logging.CRITICAL)

    @property
    def text(self):
        return self.stream.getvalue()


def _texts():
    return st.text(st.sampled_from(list("ab;={}'\"@/: \\é%")), min_size=1, max_size=6)


def _params():
    return st.fixed_dictionaries(
        {
            "host": st.one_of(st.none(), st.sampled_from(["db.example.com", "127.0.0.1", "::1"])),
            "port": st.one_of(st.none(), st.integers(1, 65535)),
            "username": st.one_of(st.none(), _texts()),
            "password": st.one_of(st.none(), _texts().map(lambda s: "pW7;" + s + "}q")),
            "database": st.one_of(st.none(), _texts()),
        }
    )


@st.composite
def _attempts(draw):
    dialect = draw(st.sampled_from(["postgresql", "mysql"]))
    outcome = st.sampled_from(["ok"] + sorted(FAILURES[dialect]))
    first = draw(st.sampled_from(sorted(FAILURES[dialect]) * 2 + ["ok"]))
    return {
        "dialect": dialect,
        "mode": draw(st.sampled_from(MODES)),
        "outcomes": [first] + draw(st.lists(outcome, min_size=3, max_size=3)),
        "params": draw(_params()),
    }


def _mk(params, mode):
    return ConnectionParameters(**params, ssl=ConnectionSSLMode(mode) if mode is not None else None)


def _secret_free(log, params, what):
    pw = params["password"]
    if pw is not None:
        check(pw not in log and quote(pw, safe="") not in log, lambda: f"{what}: password appears in log: {log!r}")


class _Patch:
    def __init__(self, obj, name, value):
        self.obj, self.name, self.value = obj, name, value

    def __enter__(self):
        self.saved = getattr(self.obj, self.name)
        setattr(self.obj, self.name, self.value)

    def __exit__(self, *args):
        setattr(self.obj, self.name, self.saved)


def _run_attempts(spec):
    dialect, mode = spec["dialect"], spec["mode"]
    calls = []
    raised = []
    natives = []
    real = asyncpg.connect if dialect == "postgresql" else aiomysql.connect
    signature = inspect.signature(real)

    def attempt(args, kwargs):
        bound = signature.bind(*args, **kwargs)
        index = len(calls)
        calls.append(bound.arguments)
        outcome = spec["outcomes"][index] if index < len(spec["outcomes"]) else "ok"
        if outcome == "ok":
            native = AsyncpgWithVersion(Backend()) if dialect == "postgresql" else FakeAiomysql(Backend())
            natives.append(native)
            return native
        exc = FAILURES[dialect][outcome][1]()
        raised.append(exc)
        raise exc

    async def connect_async(*args, **kwargs):
        return attempt(args, kwargs)

    params = _mk(spec["params"], mode)
    module = asyncpg if dialect == "postgresql" else aiomysql
    conn = get_dialect(dialect).create_connection(params)
    error = None
    ctx = None
    with LogCapture() as log, _Patch(module, "connect", connect_async):
        try:
            ctx = run_async(conn.open())
        except Exception as e:
            error = e
    _secret_free(log.text, spec["params"], dialect)

    # what was attempted
    def encryption(arguments):
        value = arguments.get("ssl")
        if dialect == "postgresql" and value is None:
            return "negotiated"
        if value is None or value is False or value == "disable":
            return "plain"
        if isinstance(value, ssl.SSLContext) or hasattr(value, "wrap_bio"):
            return "encrypted"
        return f"other: {value!r}"

    attempts = [encryption(c) for c in calls]
    if mode is None:
        check_equal(len(attempts), 1, f"{dialect}: number of attempts without an SSL mode")
        allowed = attempts
    else:
        allowed = SEQUENCES[mode]
        check(
            attempts == allowed[: len(attempts)] and attempts,
            lambda: f"{dialect}, mode {mode}: attempted {attempts}; permitted {allowed}; outcomes {spec['outcomes']}",
        )
    outcomes = spec["outcomes"][: len(attempts)]
    check(all(o != "ok" for o in outcomes[:-1]), f"{dialect}, mode {mode}: another attempt {attempts} after a success {outcomes}")
    if outcomes[-1] == "ok":
        check(error is None, lambda: f"{dialect}, mode {mode}: {error!r} although attempt {len(attempts)} succeeded")
        check(ctx is not None and conn.native is natives[-1], f"{dialect}: the connection established is not the one used")
    else:
        check(error is not None, f"{dialect}, mode {mode}: all attempts failed but no error was raised")
        chain, e = [], error
        while e is not None and e not in chain:
            chain.append(e)
            e = e.__cause__ or e.__context__
        check(any(r is c for r in raised for c in chain), lambda: f"{dialect}: raised {error!r} instead of a driver failure {raised!r}")
        if len(attempts) < len(allowed):
            kinds = [FAILURES[dialect][o][0] for o in outcomes]
            check(not kinds[-1], lambda: f"{dialect}, mode {mode}: gave up after {outcomes} without trying {allowed[len(attempts):]}")

    # parameters and certificates in every attempt
    for arguments in calls:
        p = spec["params"]
        a = dict(arguments)
        a.update(a.pop("kwargs", {}) or {})
        if dialect == "postgresql":
            expected = {"host": p["host"], "port": p["port"], "user": p["username"], "password": p["password"], "database": p["database"]}
        else:
            expected = {
                "host": p["host"] or "localhost",
                "port": p["port"] or 3306,
                "user": p["username"],
                "password": p["password"] or "",
                "db": p["database"],
            }
        for k, v in expected.items():
            got = a.get(k, a.get("database") if k == "db" else None)
            check(got == v, lambda: f"{dialect}: {k} reached the driver as {got!r}; expected {v!r}")
        value = a.get("ssl")
        if hasattr(value, "verify_mode"):
            check_equal(
                (value.verify_mode == ssl.CERT_REQUIRED, bool(value.check_hostname)),
                (VERIFY[mode] >= 1, VERIFY[mode] == 2),
                f"{dialect}, mode {mode}: (certificate verified, host name checked)",
            )
    return Result(
        nontrivial=spec["outcomes"][0] != "ok",
        labels=(f"{mode}: {len(attempts)} attempt(s)",),
        key=[dialect, mode, spec["outcomes"][:2], spec["params"]],
    )


# --- credentials of all drivers


@st.composite
def _credentials(draw):
    p = draw(_params())
    dialect = draw(st.sampled_from(["mssql", "mssql", "oracle", "redshift", "trino", "postgresql", "mysql"]))
    if dialect == "oracle":
        p["database"] = draw(st.one_of(st.none(), st.sampled_from(["FREEPDB1", "orcl", "svc.example.com"])))
    if dialect in ("oracle", "mssql") and p["host"] == "::1":
        p["host"] = "db.example.com"
    if dialect == "mssql":
        p["host"] = p["host"] or "db.example.com"
    if dialect == "trino":
        p["username"] = p["username"] or "user"
        p["password"] = p["password"] or "pW7;s}q"
    return {"dialect": dialect, "params": p}


def parse_odbc(text):
    "Parses an ODBC connection string: `key=value;...`, a value in braces runs to the closing brace, `}}` is a literal brace."

    result = {}
    i = 0
    while i < len(text):
        if text[i] == ";":
            i += 1
            continue
        j = text.find("=", i)
        if j < 0:
            raise Violation(f"malformed connection string at {text[i:]!r}")
        key = text[i:j].strip().upper()
        i = j + 1
        if i < len(text) and text[i] == "{":
            i += 1
            value = ""
            while True:
                if i >= len(text):
                    raise Violation("unterminated brace in connection string")
                if text[i] == "}":
                    if text[i + 1 : i + 2] == "}":
                        value += "}"
                        i += 2
                        continue
                    i += 1
                    break
                value += text[i]
                i += 1
            if i < len(text) and text[i] != ";":
                raise Violation(f"text after closing brace in connection string: {text[i:]!r}")
        else:
            j = text.find(";", i)
            j = len(text) if j < 0 else j
            value = text[i:j]
            i = j
        if key in result:
            raise Violation(f"key {key} occurs twice in the connection string")
        result[key] = value
    return result


def _run_credentials(spec):
    dialect, p = spec["dialect"], spec["params"]
    params = _mk(p, None)
    calls = []

    def record(result):
        def connect(*args, **kwargs):
            calls.append((args, kwargs))
            return result()

        return connect

    async def async_connect(*args, **kwargs):
        calls.append((args, kwargs))
        return AsyncpgWithVersion(Backend()) if dialect == "postgresql" else FakeAiomysql(Backend())

    class RedshiftNative:
        autocommit = False

        def close(self):
            pass

    target = {
        "mssql": (pyodbc, record(lambda: FakePyodbc(Backend()))),
        "oracle": (oracledb, record(lambda: FakeOracle(Backend()))),
        "redshift": (redshift_connector, record(RedshiftNative)),
        "trino": (aiotrino.dbapi, record(lambda: object())),
        "postgresql": (asyncpg, async_connect),
        "mysql": (aiomysql, async_connect),
    }[dialect]
    conn = get_dialect(dialect).create_connection(params)
    auth = []
    with LogCapture() as log, _Patch(target[0], "connect", target[1]):
        if dialect == "trino":
            with _Patch(aiotrino.auth, "BasicAuthentication", lambda *a: auth.append(a)):
                run_async(conn.open())
        else:
            run_async(conn.open())
    _secret_free(log.text, p, dialect)
    check_equal(len(calls), 1, f"{dialect}: number of connections opened")
    args, kw = calls[0]
    if dialect == "mssql":
        values = parse_odbc(args[0])
        for k, v in kw.items():
            values.setdefault(k.upper(), v)
        got = (values.get("SERVER"), values.get("UID"), values.get("PWD"), values.get("DATABASE"))
        server = f"{p['host']},{p['port']}" if p["port"] is not None else p["host"]
        expected = (server, p["username"], p["password"], p["database"])
        unexpected = set(values) - {"DRIVER", "APP", "SERVER", "UID", "PWD", "LONGASMAX", "TRUSTSERVERCERTIFICATE", "DATABASE", "ENCRYPT"}
        check(not unexpected, lambda: f"connection string defines {unexpected}: {args[0]!r}")
    elif dialect == "oracle":
        bound = kw
        dsn = f"{p['host'] or 'localhost'}:{p['port'] or 1521}/{p['database'] or 'FREEPDB1'}"
        got = (bound.get("user"), bound.get("password"), bound.get("dsn", args[0] if args else None))
        expected = (p["username"], p["password"], dsn)
    elif dialect == "redshift":
        got = (kw.get("host"), kw.get("port"), kw.get("db_user"), kw.get("database"))
        expected = (p["host"], p["port"], p["username"], p["database"])
    elif dialect == "trino":
        got = (kw.get("host"), kw.get("port"), kw.get("user"), kw.get("catalog"), auth)
        expected = (p["host"], p["port"], p["username"], p["database"], [(p["username"], p["password"])])
    elif dialect == "postgresql":
        got = tuple(kw.get(k) for k in ("host", "port", "user", "password", "database"))
        expected = (p["host"], p["port"], p["username"], p["password"], p["database"])
    else:
        got = tuple(kw.get(k) for k in ("host", "port", "user", "password", "db"))
        expected = (p["host"] or "localhost", p["port"] or 3306, p["username"], p["password"] or "", p["database"])
    check_equal(got, expected, f"{dialect}: connection parameters that reached the driver")
    special = any(c in ";={}'\"@/: \\é%" for k in ("username", "password", "database") if p[k] for c in p[k])
    return Result(nontrivial=special, labels=(dialect,))


# --- handshake

_pki = None


def _make_pki():
    "A certificate authority trusted through SSL_CERT_FILE, and server certificates."

    global _pki
    if _pki is not None:
        return _pki
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import ec
    from cryptography.x509.oid import NameOID

    folder = tempfile.mkdtemp(prefix="verif-c28-")
    now = datetime.datetime.now(datetime.timezone.utc)

    def name(text):
        return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, text)])

    def make(subject, issuer, key, issuer_key, ca, host=None):
        b = (
            x509.CertificateBuilder()
            .subject_name(name(subject))
            .issuer_name(name(issuer))
            .public_key(key.public_key())
            .serial_number(x509.random_serial_number())
            .not_valid_before(now - datetime.timedelta(days=2))
            .not_valid_after(now + datetime.timedelta(days=30))
            .add_extension(x509.BasicConstraints(ca=ca, path_length=None), critical=True)
            .add_extension(x509.SubjectKeyIdentifier.from_public_key(key.public_key()), critical=False)
            .add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(issuer_key.public_key()), critical=False)
        )
        if ca:
            b = b.add_extension(
                x509.KeyUsage(True, False, False, False, False, True, True, False, False), critical=True
            )
        if host:
            b = b.add_extension(x509.SubjectAlternativeName([x509.DNSName(host)]), critical=False)
        return b.sign(issuer_key, hashes.SHA256())

    def save(fname, cert, key=None):
        path = os.path.join(folder, fname)
        with open(path, "wb") as f:
            f.write(cert.public_bytes(serialization.Encoding.PEM))
            if key:
                f.write(
                    key.private_bytes(
                        serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, serialization.NoEncryption()
                    )
                )
        return path

    contexts = {}
    ca_path = None
    for trusted in (True, False):
        ca_key = ec.generate_private_key(ec.SECP256R1())
        ca_name = "Trusted CA" if trusted else "Unknown CA"
        ca = make(ca_name, ca_name, ca_key, ca_key, True)
        p = save(f"ca-{trusted}.pem", ca)
        if trusted:
            ca_path = p
        for host in ("right.example.com", "wrong.example.com"):
            key = ec.generate_private_key(ec.SECP256R1())
            cert = make(host, ca_name, key, ca_key, False, host)
            path = save(f"{trusted}-{host}.pem", cert, key)
            sctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            sctx.load_cert_chain(path)
            contexts[trusted, host] = sctx
    os.environ["SSL_CERT_FILE"] = ca_path
    os.environ.pop("SSL_CERT_DIR", None)
    import atexit
    import shutil

    atexit.register(shutil.rmtree, folder, True)
    _pki = contexts, folder
    return _pki


def _handshake():
    return st.fixed_dictionaries(
        {
            "mode": st.sampled_from(MODES),
            "trusted": st.booleans(),
            "right": st.booleans(),
        }
    )


def _run_handshake(spec):
    contexts, _ = _make_pki()
    mode = spec["mode"]
    ctx = create_context(ConnectionSSLMode(mode) if mode is not None else None)
    if mode in (None, "disable"):
        check(not ctx, f"mode {mode} yields an SSL context")
        return Result(nontrivial=False)
    check(ctx is not None, f"mode {mode} yields no SSL context")
    server = contexts[spec["trusted"], "right.example.com" if spec["right"] else "wrong.example.com"]
    c_in, c_out, s_in, s_out = (ssl.MemoryBIO() for _ in range(4))
    client_obj = ctx.wrap_bio(c_in, c_out, server_side=False, server_hostname="right.example.com")
    server_obj = server.wrap_bio(s_in, s_out, server_side=True)
    ok = True
    client_done = server_done = False
    try:
        for _ in range(20):
            if not client_done:
                try:
                    client_obj.do_handshake()
                    client_done = True
                except ssl.SSLWantReadError:
                    pass
            s_in.write(c_out.read())
            if not server_done:
                try:
                    server_obj.do_handshake()
                    server_done = True
                except ssl.SSLWantReadError:
                    pass
            c_in.write(s_out.read())
            if client_done and server_done:
                break
        ok = client_done and server_done
    except ssl.SSLError:
        ok = False
    level = VERIFY[mode]
    expected = level == 0 or (level == 1 and spec["trusted"]) or (level == 2 and spec["trusted"] and spec["right"])
    check_equal(
        ok,
        expected,
        f"mode {mode}: TLS handshake with a server that is {'trusted' if spec['trusted'] else 'not trusted'} and bears the "
        f"{'right' if spec['right'] else 'wrong'} host name succeeded",
    )
    return Result(nontrivial=not (spec["trusted"] and spec["right"]), labels=(f"{mode}: {'accepted' if ok else 'refused'}",))


def _all_handshakes():
    return [{"mode": m, "trusted": t, "right": r} for m in MODES for t in (True, False) for r in (True, False)]


# --- dialects that take a connection string


def _enforced():
    # the modes listed in the known-findings file are not generated
    return st.fixed_dictionaries(
        {"dialect": st.just("mssql"), "mode": st.sampled_from([None, "prefer", "allow", "require"]), "params": _params()}
    )


def _run_enforced(spec):
    dialect, mode = spec["dialect"], spec["mode"]
    p = dict(spec["params"])
    p["host"] = "db.example.com"
    calls = []

    def connect(*args, **kwargs):
        calls.append((args, kwargs))
        return FakePyodbc(Backend()) if dialect == "mssql" else FakeOracle(Backend())

    conn = get_dialect(dialect).create_connection(_mk(p, mode))
    with _Patch(pyodbc if dialect == "mssql" else oracledb, "connect", connect):
        run_async(conn.open())
    check_equal(len(calls), 1, f"{dialect}, mode {mode}: attempts")
    args, kw = calls[0]
    if dialect == "mssql":
        values = parse_odbc(args[0])
        # ODBC driver 18: encryption is mandatory unless switched off
        encrypted = values.get("ENCRYPT", "yes").lower() in ("yes", "mandatory", "true", "strict")
        verified = encrypted and values.get("TRUSTSERVERCERTIFICATE", "no").lower() in ("no", "false")
    else:
        dsn = kw.get("dsn") or ""
        encrypted = kw.get("protocol") == "tcps" or dsn.startswith("tcps://")
        verified = encrypted and bool(kw.get("ssl_server_dn_match", True))
    if mode in ("require", "verify-ca", "verify-full"):
        check(encrypted, f"{dialect}, mode {mode}: the connection is not encrypted")
    if mode in ("verify-ca", "verify-full"):
        check(verified, f"{dialect}, mode {mode}: the server certificate is not verified")
    if mode == "disable":
        check(not encrypted, f"{dialect}, mode {mode}: encryption is attempted")
    return Result(nontrivial=mode is not None, labels=(f"{dialect} {mode}",))


PARTS = [
    Part("enforced", _enforced, _run_enforced, quick=150, thorough=2000, workers=1),
    Part("attempts", _attempts, _run_attempts, quick=1600, thorough=30000),
    Part("credentials", _credentials, _run_credentials, quick=1200, thorough=20000),
    Part("handshake", _handshake, _run_handshake, quick=60, thorough=300, corpus=_all_handshakes(), workers=1),
]
