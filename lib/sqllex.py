"""
SQL tokeniser used by the reference database.

Written against the lexical rules of each database product (not against pysqlsync's quoting code):

* double-quoted identifiers, a doubled quote stands for a quote (all dialects; MySQL runs with ANSI_QUOTES);
* back-quoted identifiers in MySQL and Delta, bracketed identifiers in Microsoft SQL Server;
* string literals with doubled apostrophe; backslash escapes in MySQL, Snowflake and Delta literals and in PostgreSQL
  E'...' literals only;
* `--` and `/* */` comments (and `#` in MySQL).

A token is a pair (kind, value); kinds: id, str, word, num, op, ph (placeholder).
"""


class SqlSyntaxError(Exception):
    pass


BACKSLASH_DIALECTS = ("mysql", "snowflake", "delta")

_MYSQL_ESC = {"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a"}
_SNOW_ESC = {"0": "\0", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}
_PG_ESC = {"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}

_WORD_START = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_@")
_WORD_CHARS = _WORD_START | set("0123456789$#")
_DIGITS = set("0123456789")
_OPS2 = ("::", "<=", ">=", "<>", "!=", "||", ":=")


def tokenize(sql: str, dialect: str) -> list:
    toks = []
    i = 0
    n = len(sql)
    while i < n:
        c = sql[i]
        if c in " \t\r\n\f\v":
            i += 1
            continue
        if c == "\0":
            raise SqlSyntaxError("NUL character outside a literal")
        if sql.startswith("--", i):
            if dialect == "mysql" and i + 2 < n and sql[i + 2] not in " \t\n\r":
                pass  # MySQL needs white space after the dashes
            else:
                j = sql.find("\n", i)
                i = n if j < 0 else j + 1
                continue
        if sql.startswith("/*", i):
            j = sql.find("*/", i + 2)
            if j < 0:
                raise SqlSyntaxError("unterminated comment")
            i = j + 2
            continue
        if c == "#" and dialect == "mysql":
            j = sql.find("\n", i)
            i = n if j < 0 else j + 1
            continue
        if c == '"':  # for Delta Lake: spark.sql.ansi.doubleQuotedIdentifiers
            text, i = _read_quoted(sql, i, '"')
            if text == "":
                raise SqlSyntaxError("zero-length delimited identifier")
            toks.append(("id", text))
            continue
        if c == "`" and dialect in ("mysql", "delta"):
            text, i = _read_quoted(sql, i, "`")
            toks.append(("id", text))
            continue
        if c == "[" and dialect == "mssql":
            text, i = _read_quoted(sql, i, "]", start=1)
            toks.append(("id", text))
            continue
        if c == "'":
            if dialect in BACKSLASH_DIALECTS:
                text, i = _read_escaped(
                    sql, i, c, _SNOW_ESC if dialect == "snowflake" else _MYSQL_ESC,
                    like=(dialect in ("mysql", "delta")), doubled=dialect != "delta",
                )
            else:
                text, i = _read_quoted(sql, i, "'")
            toks.append(("str", text))
            continue
        if c in "eE" and dialect in ("postgresql", "redshift") and sql.startswith("'", i + 1):
            text, i = _read_escaped(sql, i + 1, "'", _PG_ESC)
            toks.append(("str", text))
            continue
        if c in "nN" and sql.startswith("'", i + 1):
            text, i = _read_quoted(sql, i + 1, "'")
            toks.append(("str", text))
            continue
        if c == "$" and i + 1 < n and sql[i + 1] in _DIGITS:
            j = i + 1
            while j < n and sql[j] in _DIGITS:
                j += 1
            toks.append(("ph", int(sql[i + 1 : j])))
            i = j
            continue
        if c == ":" and i + 1 < n and sql[i + 1] in _DIGITS:
            j = i + 1
            while j < n and sql[j] in _DIGITS:
                j += 1
            toks.append(("ph", int(sql[i + 1 : j])))
            i = j
            continue
        if c == "?":
            toks.append(("ph", sum(1 for t in toks if t[0] == "ph") + 1))
            i += 1
            continue
        if sql.startswith("%s", i):
            toks.append(("ph", sum(1 for t in toks if t[0] == "ph") + 1))
            i += 2
            continue
        if c in _DIGITS or (c == "." and i + 1 < n and sql[i + 1] in _DIGITS):
            j = i
            while j < n and sql[j] in _DIGITS:
                j += 1
            if j < n and sql[j] == ".":
                j += 1
                while j < n and sql[j] in _DIGITS:
                    j += 1
            if j < n and sql[j] in "eE":
                k = j + 1
                if k < n and sql[k] in "+-":
                    k += 1
                if k < n and sql[k] in _DIGITS:
                    while k < n and sql[k] in _DIGITS:
                        k += 1
                    j = k
            if j < n and sql[j] in _WORD_START:
                raise SqlSyntaxError(f"trailing junk after number: {sql[i:j+1]!r}")
            toks.append(("num", sql[i:j]))
            i = j
            continue
        if c in _WORD_START or ord(c) > 127 and (c.isalpha() or c.isdigit()):
            j = i
            while j < n and (sql[j] in _WORD_CHARS or ord(sql[j]) > 127 and (sql[j].isalpha() or sql[j].isdigit())):
                j += 1
            toks.append(("word", sql[i:j].upper()))
            i = j
            continue
        if sql[i : i + 2] in _OPS2:
            toks.append(("op", sql[i : i + 2]))
            i += 2
            continue
        if c in "();,.=<>+-*/[]|%":
            toks.append(("op", c))
            i += 1
            continue
        raise SqlSyntaxError(f"unexpected character {c!r} at {i}: {sql[max(0,i-20):i+20]!r}")
    return toks


def _read_quoted(sql, i, q, start=1):
    "Reads a literal in which the closing quote is escaped by doubling it."
    out = []
    j = i + start
    n = len(sql)
    while j < n:
        c = sql[j]
        if c == q:
            if j + 1 < n and sql[j + 1] == q:
                out.append(q)
                j += 2
                continue
            return "".join(out), j + 1
        if c == "\0":
            raise SqlSyntaxError("NUL character in literal")
        out.append(c)
        j += 1
    raise SqlSyntaxError(f"unterminated quote {q} in {sql[i:i+40]!r}")


def _read_escaped(sql, i, q, esc, like=False, doubled=True):
    "Reads a literal with backslash escapes; if quotes are not doubled to stand for one, adjacent literals are joined."
    out = []
    j = i + 1
    n = len(sql)
    while j < n:
        c = sql[j]
        if c == "\\":
            if j + 1 >= n:
                break
            e = sql[j + 1]
            if like and e in "%_":
                out.append("\\" + e)  # MySQL keeps the backslash for these two
            else:
                out.append(esc.get(e, e))
            j += 2
            continue
        if c == q:
            if j + 1 < n and sql[j + 1] == q:
                if doubled:
                    out.append(q)
                j += 2
                continue
            return "".join(out), j + 1
        out.append(c)
        j += 1
    raise SqlSyntaxError(f"unterminated literal in {sql[i:i+40]!r}")


def split(toks: list) -> list:
    "Splits a token list into statements at semicolons."
    out, cur = [], []
    for t in toks:
        if t == ("op", ";"):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def canon(toks) -> str:
    "Canonical text of a token sequence: insensitive to white space and letter case of bare words."
    parts = []
    for k, v in toks:
        if k == "id":
            parts.append('"' + v.replace('"', '""') + '"')
        elif k == "str":
            parts.append("'" + v.replace("'", "''") + "'")
        elif k == "word":
            parts.append(v.lower())
        else:
            parts.append(str(v))
    return " ".join(parts)


def canon_text(sql: str, dialect: str) -> str:
    return canon(tokenize(sql, dialect))
