"""json, base64, html, struct."""
import base64
import html
import json
import struct
from ..core import Sym, SymInt, SymBool, SymFloat, Unsupported, ctx
from ..seq import (SymStr, SymBytes, SxByteArray, View, Ch, Tok, to_bytes, blen, bytes_to_int, int_to_bytes,
                   sx_typename, chars_of)
from ..containers import SxDict
from ..rt import FmtBase, opaque_str, sx_str, has_sym


# ------------------------------------------------------------------------------------------ json
def surrogate(c):
    return False


def norm(o, default, sort_keys, skipkeys, allow_nan, depth=0):
    """What json.loads(json.dumps(o)) gives."""
    if depth > 900:
        raise RecursionError("maximum recursion depth exceeded")
    if o is None or isinstance(o, (bool, SymBool, SymInt, SymFloat, SymStr)):
        return o
    if isinstance(o, str):
        return json.loads(json.dumps(o)) if not o.isascii() else o
    if isinstance(o, float):
        if (o != o or o in (float("inf"), float("-inf"))) and not allow_nan:
            raise ValueError("Out of range float values are not JSON compliant")
        return float(o)
    if isinstance(o, int):
        return int(o)
    if isinstance(o, Sym):
        raise TypeError("Object of type %s is not JSON serializable" % o.sx_type.__name__)
    if isinstance(o, (list, tuple)):
        return [norm(x, default, sort_keys, skipkeys, allow_nan, depth + 1) for x in o]
    if isinstance(o, dict):
        items = []
        for k, v in o.items():
            if isinstance(k, (str, SymStr)):
                pass
            elif isinstance(k, (bool, SymBool)):
                k = "true" if k else "false"
            elif k is None:
                k = "null"
            elif isinstance(k, (int, SymInt)):
                k = sx_str(k) if isinstance(k, SymInt) else str(int(k))
            elif isinstance(k, float):
                k = json.dumps(k)
            elif isinstance(k, SymFloat):
                k = sx_str(k)
            elif skipkeys:
                continue
            else:
                raise TypeError("keys must be str, int, float, bool or None, not %s" % sx_typename(k))
            items.append((k, norm(v, default, sort_keys, skipkeys, allow_nan, depth + 1)))
        if sort_keys:
            items.sort(key=lambda kv: kv[0])
        d = SxDict()
        for k, v in items:
            d[k] = v
        return d
    if default is not None:
        return norm(default(o), default, sort_keys, skipkeys, allow_nan, depth + 1)
    raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)


def copy_tree(o):
    if isinstance(o, list):
        return [copy_tree(x) for x in o]
    if isinstance(o, dict):
        d = SxDict()
        for k, v in o.items():
            d[k] = copy_tree(v)
        return d
    return o


def dumps(o, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, indent=None,
          separators=None, default=None, sort_keys=False, **kw):
    if cls is not None or kw:
        raise Unsupported("json.dumps(cls=...)")
    return opaque_str("json", norm(o, default, sort_keys, skipkeys, allow_nan))


def loads(s, **kw):
    if kw:
        raise Unsupported("json.loads options")
    if isinstance(s, (SymBytes, SxByteArray)):
        s = to_bytes(s).decode()
    if isinstance(s, SymStr):
        if len(s.pieces) == 1 and isinstance(s.pieces[0], View):
            b = s.pieces[0].base
            if isinstance(b, FmtBase) and b.kind == "json" and s.pieces[0].full():
                return copy_tree(b.payload)
        raise json.JSONDecodeError("symbolic", "", 0)
    if isinstance(s, Sym):
        raise TypeError("the JSON object must be str, bytes or bytearray, not %s" % s.sx_type.__name__)
    return copy_tree(json.loads(s))


def dump(o, fp, **kw):
    fp.write(dumps(o, **kw))


def load(fp, **kw):
    return loads(fp.read(), **kw)


# ---------------------------------------------------------------------------------------- base64
def b64encode(data, altchars=None):
    data = to_bytes(data)
    if isinstance(data, bytes):
        return base64.b64encode(data, altchars)
    n = blen(data)
    ln = ((n + 2) // 3) * 4
    return SymBytes.make([View(Tok("b64", data, ln), 0, ln)])


def b64decode(data, *a, **k):
    if isinstance(data, SymStr):
        p = data.pieces[0]
        if len(data.pieces) == 1 and isinstance(p, View) and isinstance(p.base, FmtBase) and p.base.kind == "b64" \
                and p.full():
            return p.base.payload
        raise Unsupported("base64 of a symbolic string")
    if isinstance(data, (SymBytes, SxByteArray)):
        data = to_bytes(data)
        if isinstance(data, SymBytes):
            p = data.pieces[0]
            if len(data.pieces) == 1 and isinstance(p, View) and p.base.kind == "b64" and p.full():
                return p.base.payload
            raise Unsupported("base64 of symbolic bytes")
    return base64.b64decode(data, *a, **k)


# ------------------------------------------------------------------------------------------ html
def escape(s, quote=True):
    if not isinstance(s, SymStr):
        return html.escape(s, quote)
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    if quote:
        s = s.replace('"', "&quot;").replace("'", "&#x27;")
    return s


# ---------------------------------------------------------------------------------------- struct
INTS = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
        "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}


def _fmt(fmt):
    order = "little"
    body = fmt
    if fmt and fmt[0] in "<>!=@":
        order = "big" if fmt[0] in ">!" else "little"
        body = fmt[1:]
    items = []
    num = ""
    for c in body:
        if c.isdigit():
            num += c
        elif c == " ":
            pass
        else:
            items.append((c, int(num) if num else 1))
            num = ""
    return order, items


def s_pack(fmt, *vals):
    if not any(isinstance(v, Sym) for v in vals):
        return struct.pack(fmt, *vals)
    order, items = _fmt(fmt)
    out = []
    vals = list(vals)
    for c, n in items:
        if c not in INTS:
            raise Unsupported("struct format %s" % fmt)
        size, signed = INTS[c]
        for _ in range(n):
            if not vals:
                raise struct.error("pack expected more items")
            v = vals.pop(0)
            if not isinstance(v, (int, SymInt, SymBool)):
                raise struct.error("required argument is not an integer")
            try:
                out.extend(SymBytes.of(int_to_bytes(v, size, order, signed=signed)))
            except OverflowError:
                raise struct.error("argument out of range")
    if vals:
        raise struct.error("pack expected fewer items")
    return SymBytes.make(out)


def s_unpack_from(fmt, data, offset=0):
    data = to_bytes(data)
    size = struct.calcsize(fmt)
    if isinstance(data, bytes) and not isinstance(offset, SymInt):
        return struct.unpack_from(fmt, data, offset)
    if blen(data) - offset < size:
        raise struct.error("unpack_from requires a buffer of at least %d bytes" % size)
    order, items = _fmt(fmt)
    out = []
    rope = data if isinstance(data, SymBytes) else SymBytes((data,))
    for c, n in items:
        if c not in INTS:
            raise Unsupported("struct format %s" % fmt)
        k, signed = INTS[c]
        for _ in range(n):
            out.append(bytes_to_int(rope.cut(offset, offset + k), order, signed=signed))
            offset = offset + k
    return tuple(out)


def s_unpack(fmt, data):
    if not (blen(to_bytes(data)) == struct.calcsize(fmt)):
        raise struct.error("unpack requires a buffer of %d bytes" % struct.calcsize(fmt))
    return s_unpack_from(fmt, data, 0)


class Struct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = struct.calcsize(fmt)

    def pack(self, *v):
        return s_pack(self.format, *v)

    def unpack(self, d):
        return s_unpack(self.format, d)

    def unpack_from(self, d, offset=0):
        return s_unpack_from(self.format, d, offset)


def install(world, out, resets, module):
    out["json"] = module("json", dumps=dumps, loads=loads, dump=dump, load=load,
                         JSONDecodeError=json.JSONDecodeError)
    out["base64"] = module("base64", b64encode=b64encode, b64decode=b64decode, standard_b64encode=b64encode,
                           standard_b64decode=b64decode)
    out["html"] = module("html", escape=escape, unescape=html.unescape)
    out["struct"] = module("struct", pack=s_pack, unpack=s_unpack, unpack_from=s_unpack_from, Struct=Struct,
                           calcsize=struct.calcsize, error=struct.error)
