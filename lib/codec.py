"Encodes Python values as plain JSON so that a case specification can be saved and replayed."

import base64
import datetime
import decimal
import ipaddress
import uuid
from typing import Any


def enc(v: Any) -> Any:
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return {"$": "float", "v": v.hex() if v == v and v not in (float("inf"), float("-inf")) else repr(v)}
    if isinstance(v, bytes):
        return {"$": "bytes", "v": base64.b64encode(v).decode()}
    if isinstance(v, uuid.UUID):
        return {"$": "uuid", "v": str(v)}
    if isinstance(v, datetime.datetime):
        return {"$": "datetime", "v": v.isoformat()}
    if isinstance(v, datetime.date):
        return {"$": "date", "v": v.isoformat()}
    if isinstance(v, datetime.time):
        return {"$": "time", "v": v.isoformat()}
    if isinstance(v, datetime.timedelta):
        return {"$": "timedelta", "v": [v.days, v.seconds, v.microseconds]}
    if isinstance(v, decimal.Decimal):
        return {"$": "decimal", "v": str(v)}
    if isinstance(v, ipaddress.IPv4Address):
        return {"$": "ipv4", "v": str(v)}
    if isinstance(v, ipaddress.IPv6Address):
        return {"$": "ipv6", "v": str(v)}
    if isinstance(v, list):
        return {"$": "list", "v": [enc(i) for i in v]}
    if isinstance(v, tuple):
        return {"$": "tuple", "v": [enc(i) for i in v]}
    if isinstance(v, (set, frozenset)):
        return {"$": "set", "v": sorted((enc(i) for i in v), key=repr)}
    if isinstance(v, dict):
        return {"$": "dict", "v": [[enc(k), enc(i)] for k, i in v.items()]}
    raise TypeError(f"cannot encode {v!r}")


def dec(j: Any) -> Any:
    if not isinstance(j, dict):
        return j
    k, v = j["$"], j["v"]
    if k == "float":
        return float.fromhex(v) if "x" in v else float(v)
    if k == "bytes":
        return base64.b64decode(v)
    if k == "uuid":
        return uuid.UUID(v)
    if k == "datetime":
        return datetime.datetime.fromisoformat(v)
    if k == "date":
        return datetime.date.fromisoformat(v)
    if k == "time":
        return datetime.time.fromisoformat(v)
    if k == "timedelta":
        return datetime.timedelta(v[0], v[1], v[2])
    if k == "decimal":
        return decimal.Decimal(v)
    if k == "ipv4":
        return ipaddress.IPv4Address(v)
    if k == "ipv6":
        return ipaddress.IPv6Address(v)
    if k == "list":
        return [dec(i) for i in v]
    if k == "tuple":
        return tuple(dec(i) for i in v)
    if k == "set":
        return set(dec(i) for i in v)
    if k == "dict":
        return {dec(a): dec(b) for a, b in v}
    raise TypeError(f"cannot decode {j!r}")


def same(a: Any, b: Any) -> bool:
    "Equality that also distinguishes types (True vs 1, 1 vs 1.0) and the sign of zero."

    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, float) and isinstance(b, float):
        return repr(a) == repr(b)
    if isinstance(a, decimal.Decimal) and isinstance(b, decimal.Decimal):
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b
