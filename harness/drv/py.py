"""runs calls of the Python module: one JSON request per line, one JSON answer per line"""
import json, os, sys
sys.path.insert(0, sys.argv[1])
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
import cosmian_abe_gpsw as m

KINDS = {
    "b": bytes.fromhex,
    "ba": lambda v: bytearray.fromhex(v),
    "mv": lambda v: memoryview(bytes.fromhex(v)),
    "s": lambda v: v,
    "i": int,
    "f": float,
    "n": lambda v: None,
    "t": lambda v: bool(v),
    "l": lambda v: v,
    "o": lambda v: object(),
    "d": lambda v: {},
}

def arg(a):
    (k, v), = a.items()
    return KINDS[k](v)

def val(v):
    if v is None:
        return None
    if isinstance(v, (bytes, bytearray)):
        return {"b": bytes(v).hex()}
    if isinstance(v, list):
        return {"b": bytes(v).hex()}
    if isinstance(v, tuple):
        return [val(x) for x in v]
    if isinstance(v, int):
        return {"i": str(v)}
    if isinstance(v, str):
        return {"s": v}
    return {"?": type(v).__name__}

for line in sys.stdin:
    r = json.loads(line)
    a = [arg(x) for x in r["a"]]
    try:
        o = {"ok": val(getattr(m, r["f"])(*a))}
    except Exception as e:
        o = {"err": [type(e).__name__, ascii(e)]}
    except BaseException as e:
        o = {"bad": f"{type(e).__name__}: {e!a}"}
    out.write(json.dumps(o) + "\n")
    out.flush()
