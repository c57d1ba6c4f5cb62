"""Symbolic strings, byte strings and in-memory files.

A sequence is a rope of pieces:
  * Lit   - concrete text/bytes
  * View  - [a, b) of a base of symbolic length; a text base is an arbitrary text whose characters
            the code may move around but not inspect, a byte base is a token produced by a codec
            stub (a packed integer, a compressed block, ...)
  * Ch    - one symbolic character (code point)
"""
import io
import struct
import zlib
from .core import (Sym, SymInt, SymBool, SymFloat, And, Or, Not, Ite, Unsupported, ctx, divk)
from . import core


class Base:
    """Something with a length of which Views can be taken."""
    __slots__ = ("name", "length")

    def __init__(self, name, length):
        self.name, self.length = name, length


class TextBase(Base):
    __slots__ = ("index",)

    def __init__(self, name, length, index=0):
        self.name, self.length, self.index = name, length, index


class FillBase(TextBase):
    """A run of one padding character."""
    __slots__ = ("ch",)

    def __init__(self, length, ch=" "):
        self.name, self.length, self.index, self.ch = "fill", length, -1, ch


class FmtBase(TextBase):
    """Text of a formatted value: kind 'int' (decimal digits) or opaque."""
    __slots__ = ("kind", "payload")

    def __init__(self, kind, payload, length):
        self.name, self.length, self.index = "fmt:" + kind, length, -1
        self.kind, self.payload = kind, payload


class Tok(Base):
    """Opaque byte token: kind + payload, of a known (possibly symbolic) length."""
    __slots__ = ("kind", "payload")

    def __init__(self, kind, payload, length):
        self.name = kind
        self.kind, self.payload, self.length = kind, payload, length


class View:
    __slots__ = ("base", "a", "b")

    def __init__(self, base, a, b):
        self.base, self.a, self.b = base, a, b

    def full(self):
        return same(self.a, 0) and same(self.b, self.base.length)


class Ch:
    __slots__ = ("code",)

    def __init__(self, code):
        self.code = code


def same(x, y):
    """Syntactic equality of integer terms (no solver)."""
    if isinstance(x, SymInt):
        return isinstance(y, SymInt) and x.terms == y.terms and x.c == y.c
    return not isinstance(y, SymInt) and x == y


def entailed_eq(x, y):
    """x == y decided by a branch (explores both)."""
    if same(x, y):
        return True
    return bool(x == y)


def plen(p):
    if isinstance(p, View):
        return p.b - p.a
    if isinstance(p, Ch):
        return 1
    return len(p)


def psub(p, s, t):
    if isinstance(p, View):
        return View(p.base, p.a + s, p.a + t)
    if isinstance(p, Ch):
        return p
    return p[ctx().concretize(s, 1000):ctx().concretize(t, 1000)]


def sx_index(x):
    """An int or SymInt from anything usable as an index."""
    if isinstance(x, (int, SymInt)):
        return x
    if isinstance(x, SymBool):
        return int(bool(x))
    f = getattr(type(x), "__index__", None)
    if f is None:
        raise TypeError("slice indices must be integers or None or have an __index__ method")
    return f(x)


def clamp_slice(start, stop, n):
    """slice(start, stop).indices(n) for step 1, symbolically (forks)."""
    if start is None:
        start = 0
    else:
        start = sx_index(start)
        if start < 0:
            start = start + n
            if start < 0:
                start = 0
        elif start > n:
            start = n
    if stop is None:
        stop = n
    else:
        stop = sx_index(stop)
        if stop < 0:
            stop = stop + n
            if stop < 0:
                stop = 0
        elif stop > n:
            stop = n
    return start, stop


class Rope(Sym):
    __slots__ = ("pieces", "_len", "_hash")
    LIT = None
    EMPTY = None

    def __init__(self, pieces=()):
        out = []
        for p in pieces:
            if isinstance(p, self.LIT):
                if not p:
                    continue
                if out and isinstance(out[-1], self.LIT):
                    out[-1] = out[-1] + p
                    continue
            elif isinstance(p, View):
                if same(p.a, p.b):
                    continue
                if out and isinstance(out[-1], View) and out[-1].base is p.base and same(out[-1].b, p.a):
                    out[-1] = View(p.base, out[-1].a, p.b)
                    continue
            out.append(p)
        self.pieces = tuple(out)
        n = 0
        for p in self.pieces:
            n = n + plen(p)
        self._len = n

    @classmethod
    def make(cls, pieces):
        """Rope or concrete literal when nothing is symbolic."""
        r = cls(pieces)
        if not r.pieces:
            return cls.EMPTY
        if len(r.pieces) == 1 and isinstance(r.pieces[0], cls.LIT):
            return r.pieces[0]
        if all(isinstance(p, (cls.LIT, Ch)) and (not isinstance(p, Ch) or isinstance(p.code, int))
               for p in r.pieces):
            return cls.EMPTY.join(chr(p.code) if isinstance(p, Ch) else p for p in r.pieces)
        return r

    @classmethod
    def of(cls, x):
        """Pieces of a rope or literal, or None."""
        if isinstance(x, cls):
            return x.pieces
        if isinstance(x, cls.LIT):
            return (cls.EMPTY + x,) if len(x) else ()
        return None

    def sx_len(self):
        return self._len

    def __len__(self):
        return ctx().concretize(self._len)

    def __bool__(self):
        r = self._len > 0
        return bool(r)

    # ------------------------------------------------------------------ slicing
    def cut(self, a, b):
        """Slice with 0 <= a <= b <= len known."""
        if same(a, b):
            return self.EMPTY
        if len(self.pieces) == 1 and isinstance(self.pieces[0], View):
            return self.make([psub(self.pieces[0], a, b)])
        if same(a, 0) and same(b, self._len):
            return self
        if not (a < b):
            return self.EMPTY
        out = []
        p = 0
        for pc in self.pieces:
            e = p + plen(pc)
            if b <= p:
                break
            if a >= e:
                p = e
                continue
            s = (a - p) if a > p else 0
            t = (b - p) if b < e else plen(pc)
            out.append(psub(pc, s, t))
            p = e
        return self.make(out)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None and not same(sx_index(i.step), 1):
                return self.concrete()[slice(*(None if v is None else ctx().concretize(sx_index(v))
                                               for v in (i.start, i.stop, i.step)))]
            a, b = clamp_slice(i.start, i.stop, self._len)
            if same(a, b):
                return self.EMPTY
            if a > b:
                return self.EMPTY
            return self.cut(a, b)
        i = sx_index(i)
        n = self._len
        if i < 0:
            i = i + n
            if i < 0:
                raise IndexError("index out of range")
        if i >= n:
            raise IndexError("index out of range")
        return self.item(i)

    def __iter__(self):
        i = 0
        while i < self._len:
            yield self.item(i)
            i += 1

    # ------------------------------------------------------------------ concatenation
    def __add__(self, o):
        ps = self.of(o)
        if ps is None:
            return NotImplemented
        return self.make(self.pieces + tuple(ps))

    def __radd__(self, o):
        ps = self.of(o)
        if ps is None:
            return NotImplemented
        return self.make(tuple(ps) + self.pieces)

    def __mul__(self, n):
        n = ctx().concretize(n)
        return self.make(self.pieces * max(n, 0))
    __rmul__ = __mul__

    # ------------------------------------------------------------------ equality
    def __eq__(self, o):
        ps = self.of(o)
        if ps is None:
            return NotImplemented
        return rope_eq(self, o, self.pieces, tuple(ps))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        raise Unsupported("concrete value of %s" % type(self).__name__)

    def __repr__(self):
        return "<%s>" % type(self).__name__


def piece_eq_full(x, y):
    """Equality of two pieces known to have equal nonzero length."""
    if isinstance(x, View) and isinstance(y, View):
        if x.base is y.base:
            return True if isinstance(x.base, FillBase) else x.a == y.a
        if isinstance(x.base, Tok) and isinstance(y.base, Tok):
            if x.base.kind != y.base.kind:
                return False
            if x.base.kind == "zero":
                return True
            e = sx_eq(x.base.payload, y.base.payload)
            return And(e, x.a == y.a)
        if isinstance(x.base, FillBase) and isinstance(y.base, FillBase):
            return x.base.ch == y.base.ch
        if isinstance(x.base, FmtBase) or isinstance(y.base, FmtBase):
            return fmt_eq(x, y)
        return False
    if isinstance(x, View) or isinstance(y, View):
        v, o = (x, y) if isinstance(x, View) else (y, x)
        if isinstance(v.base, FillBase):
            if isinstance(o, Ch):
                return o.code == ord(v.base.ch)
            return o == v.base.ch * len(o)
        if isinstance(v.base, FmtBase):
            return fmt_eq(x, y)
        if isinstance(v.base, Tok) and isinstance(o, bytes):
            return tok_lit_eq(v, o)
        return False      # generic characters differ from every literal one
    cx = x.code if isinstance(x, Ch) else ord(x) if isinstance(x, str) else x[0]
    cy = y.code if isinstance(y, Ch) else ord(y) if isinstance(y, str) else y[0]
    return cx == cy


def tok_lit_eq(v, lit):
    t = v.base
    if t.kind == "zero":
        return lit == bytes(len(lit))
    if t.kind == "u8":
        return t.payload == lit[0]
    if t.kind == "int" and v.full():
        val, size, order, signed = t.payload
        return val == int.from_bytes(lit, order, signed=signed)
    if t.kind == "utf8" and v.full():
        try:
            return t.payload == lit.decode("utf-8")
        except UnicodeDecodeError:
            return False
    if t.kind == "blob":
        return False
    if t.kind.startswith("mp_") and (v.full() or And(v.a == 0, v.b == t.length)):
        w = mp_literal(t.kind[3:], lit)
        return False if w is None else And(t.payload == w, t.length == len(lit))
    if t.kind == "z:zlib" and v.a == 0 and lit[0] != 0x78:
        return False
    if t.kind == "z:zlib" and (v.full() or And(v.a == 0, v.b == t.length)):
        try:
            return t.payload == zlib.decompress(lit)
        except zlib.error:
            return False
    raise Unsupported("comparison of %s with literal bytes" % t.kind)


def mp_literal(kind, lit):
    """The value of a MessagePack item or header that fills these bytes, or None."""
    b, r = lit[0], lit[1:]
    if kind == "int":
        if b < 0x80 or b >= 0xe0:
            return (b if b < 0x80 else b - 256) if not r else None
        if 0xcc <= b <= 0xd3 and len(r) == 1 << (b & 3):
            return int.from_bytes(r, "big", signed=b >= 0xd0)
        return None
    if kind == "bool":
        return {b"\xc2": False, b"\xc3": True}.get(lit)
    if kind == "f64":
        return struct.unpack(">d", r)[0] if b == 0xcb and len(r) == 8 else None
    fix, mask, wide = {"str": (0xa0, 31, {0xd9: 1, 0xda: 2, 0xdb: 4}), "bin": (None, 0, {0xc4: 1, 0xc5: 2, 0xc6: 4}),
                       "arr": (0x90, 15, {0xdc: 2, 0xdd: 4}), "map": (0x80, 15, {0xde: 2, 0xdf: 4})}[kind]
    if fix is not None and b & ~mask & 255 == fix and not r:
        return b & mask
    if b in wide and len(r) == wide[b]:
        return int.from_bytes(r, "big")
    return None


def fmt_eq(x, y):
    if isinstance(x, View) and isinstance(y, View) and isinstance(x.base, FmtBase) and isinstance(y.base, FmtBase):
        if x.full() and y.full():
            if x.base.kind != y.base.kind:
                raise Unsupported("comparison of formatted texts")
            return sx_eq(x.base.payload, y.base.payload)
    raise Unsupported("comparison of formatted text")


def fmt_norm(xp, yp):
    """Replace formatted integers by their digits unless both ropes have the same structure."""
    def has(ps):
        return any(isinstance(p, View) and isinstance(p.base, FmtBase) and p.base.kind == "int" for p in ps)
    if not (has(xp) or has(yp)):
        return xp, yp
    if len(xp) == len(yp):
        for a, b in zip(xp, yp):
            if isinstance(a, str) and isinstance(b, str):
                if a == b and not (a[0].isdigit() or a[-1].isdigit() or a[-1] == "-"):
                    continue
                break
            if isinstance(a, View) and isinstance(b, View):
                if isinstance(a.base, FmtBase) and isinstance(b.base, FmtBase) and a.full() and b.full() \
                        and a.base.kind == b.base.kind == "int":
                    continue
                if a.base is b.base and type(a.base) is TextBase and same(a.a, b.a) and same(a.b, b.b):
                    continue
            break
        else:
            return xp, yp
    return fmt_resolve(xp), fmt_resolve(yp)


def fmt_resolve(ps):
    out = []
    for p in ps:
        if isinstance(p, View) and isinstance(p.base, FmtBase) and p.base.kind == "int":
            t = str(ctx().concretize(p.base.payload))
            p = t[ctx().concretize(p.a):ctx().concretize(p.b)]
        out.append(p)
    return SymStr(out).pieces


def rope_eq(x, y, xp, yp):
    if xp == yp:
        return True
    if any(isinstance(p, View) and isinstance(p.base, FmtBase) for p in xp + yp):
        nx, ny = fmt_norm(xp, yp)
        if nx is xp and ny is yp:
            conds = []
            if len(xp) == len(yp):
                for a, b in zip(xp, yp):
                    if isinstance(a, str) and isinstance(b, str):
                        if a != b:
                            break
                    elif isinstance(a, View) and isinstance(b, View) and a.full() and b.full() and \
                            isinstance(a.base, FmtBase) and isinstance(b.base, FmtBase):
                        conds.append(fmt_eq(a, b))
                    elif isinstance(a, View) and isinstance(b, View) and a.base is b.base and same(a.a, b.a) \
                            and same(a.b, b.b):
                        continue
                    else:
                        break
                else:
                    return And(*conds)
        xp, yp = nx, ny
        if xp == yp:
            return True
    lx, ly = sum_len(xp), sum_len(yp)
    if len(xp) == 1 and len(yp) == 1 and isinstance(xp[0], View) and isinstance(yp[0], View):
        if xp[0].base is yp[0].base:
            a, b = xp[0], yp[0]
            return And(lx == ly, Or(lx == 0, a.a == b.a))
        if type(xp[0].base) is TextBase and type(yp[0].base) is TextBase:
            return And(lx == 0, ly == 0)
        if (xp[0].full() and yp[0].full()) and isinstance(xp[0].base, Tok) and isinstance(yp[0].base, Tok):
            return And(lx == ly, Or(lx == 0, piece_eq_full(xp[0], yp[0])))
    # token-wise comparison first (aligned ropes of complete tokens)
    if len(xp) == len(yp) and all(aligned(a, b) for a, b in zip(xp, yp)):
        conds = []
        for a, b in zip(xp, yp):
            if isinstance(a, (str, bytes)):
                if a != b:
                    conds = None
                    break
                continue
            c = piece_eq_full(a, b)
            conds.append(And(plen(a) == plen(b), c))
        if conds is not None:
            r = And(*conds)
            if r is not False:
                return r
    if not (lx == ly):
        return False
    # all single characters of known number: one formula
    cx, cy = chars_of(xp), chars_of(yp)
    if cx is not None and cy is not None:
        if len(cx) != len(cy):
            return False
        return And(*[a == b for a, b in zip(cx, cy)])
    xs, ys = list(xp), list(yp)
    conds = []
    while xs and ys:
        p, q = xs[0], ys[0]
        lp, lq = plen(p), plen(q)
        if isinstance(lp, SymInt) and not (lp > 0):
            xs.pop(0)
            continue
        if isinstance(lq, SymInt) and not (lq > 0):
            ys.pop(0)
            continue
        if same(lp, lq) or lp == lq:
            n = lp
        elif lp < lq:
            n = lp
        else:
            n = lq
        if not isinstance(n, SymInt) or not isinstance(p, View) or not isinstance(q, View):
            n = ctx().concretize(n) if isinstance(p, (str, bytes, Ch)) or isinstance(q, (str, bytes, Ch)) else n
        a = p if same(n, lp) else psub(p, 0, n)
        b = q if same(n, lq) else psub(q, 0, n)
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            if a != b:
                return False
        else:
            c = piece_eq_full(a, b)
            if c is False:
                return False
            conds.append(c)
        if same(n, lp):
            xs.pop(0)
        else:
            xs[0] = psub(p, n, lp)
        if same(n, lq):
            ys.pop(0)
        else:
            ys[0] = psub(q, n, lq)
    for rest in (xs, ys):
        for p in rest:
            if plen(p) > 0:
                return False
    return And(*conds)


def aligned(a, b):
    if isinstance(a, (str, bytes)):
        return isinstance(b, (str, bytes)) and len(a) == len(b)
    return (isinstance(a, View) and isinstance(b, View) and a.full() and b.full()
            and isinstance(a.base, Tok) and isinstance(b.base, Tok))


def sum_len(ps):
    n = 0
    for p in ps:
        n = n + plen(p)
    return n


def chars_of(pieces):
    """List of code points when every piece is a literal or a symbolic character."""
    out = []
    for p in pieces:
        if isinstance(p, str):
            out.extend(map(ord, p))
        elif isinstance(p, bytes):
            out.extend(p)
        elif isinstance(p, Ch):
            out.append(p.code)
        else:
            return None
    return out


# ------------------------------------------------------------------------------------- strings
WS_RANGES = None


def _ws_ranges():
    global WS_RANGES
    if WS_RANGES is None:
        out = []
        for c in range(0x110000):
            if chr(c).isspace():
                if out and out[-1][1] == c - 1:
                    out[-1][1] = c
                else:
                    out.append([c, c])
        WS_RANGES = [tuple(r) for r in out]
    return WS_RANGES


def in_ranges(code, ranges):
    return Or(*[And(code >= lo, code <= hi) if lo != hi else code == lo for lo, hi in ranges])


_pred_ranges = {}


def pred_ranges(name):
    r = _pred_ranges.get(name)
    if r is None:
        f = getattr(str, name)
        r = []
        for c in range(0x110000):
            if f(chr(c)):
                if r and r[-1][1] == c - 1:
                    r[-1][1] = c
                else:
                    r.append([c, c])
        _pred_ranges[name] = r = [tuple(x) for x in r]
    return r


_GENERIC_RANGES = ((0x4E00, 0x9FFF), (0x3400, 0x4DBF), (0xAC00, 0xD7A3))


def generic_char(i):
    """The i-th character of the replayed generic text (all 3 bytes in UTF-8, all distinct)."""
    for lo, hi in _GENERIC_RANGES:
        n = hi - lo + 1
        if i < n:
            return chr(lo + i)
        i -= n
    raise ValueError("generic text too long")


GENERIC_MAX = sum(h - l + 1 for l, h in _GENERIC_RANGES)


def generic_text(n, index=0):
    # different bases start at different places so that their characters differ
    off = index * 2500
    return "".join(generic_char((off + i) % GENERIC_MAX) for i in range(n))


class SymStr(Rope):
    __slots__ = ()
    sx_type = str
    LIT = str
    EMPTY = ""

    def item(self, i):
        cs = chars_of(self.pieces)
        if cs is not None and not isinstance(i, SymInt):
            c = cs[i]
            return chr(c) if isinstance(c, int) else SymStr([Ch(c)])
        return self.cut(i, i + 1)

    def codes(self):
        return chars_of(self.pieces)

    def concrete(self):
        """Pin to the value under the current model (incomplete exploration)."""
        c = ctx()
        out = []
        for p in self.pieces:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, Ch):
                out.append(chr(c.pin(p.code, "concrete string")))
            elif type(p.base) is TextBase:
                a, b = c.pin(p.a, "concrete string"), c.pin(p.b, "concrete string")
                out.append(generic_text(b, p.base.index)[a:b])
            elif isinstance(p.base, FillBase):
                out.append(p.base.ch * c.pin(p.b - p.a, "concrete string"))
            elif p.base.kind == "int":
                t = str(c.concretize(p.base.payload))
                out.append(t[c.concretize(p.a):c.concretize(p.b)])
            else:
                raise Unsupported("concrete value of an opaque string")
        return "".join(out)

    def __str__(self):
        return "<symstr>"

    def __lt__(self, o): return str_lt(self, o)
    def __gt__(self, o): return str_lt(o, self)
    def __le__(self, o): return Not(str_lt(o, self))
    def __ge__(self, o): return Not(str_lt(self, o))

    def __mod__(self, args):
        from .rt import fmt_percent
        return fmt_percent(self.concrete(), args)

    def __rmod__(self, o):
        from .rt import fmt_percent
        return fmt_percent(o, self)

    def __contains__(self, sub):
        return bool(self.find(sub) != -1)

    def __format__(self, spec):
        return format(self.concrete(), spec)

    # -- methods on characters
    def els(self):
        """Elements (code points or non-empty views) and their offsets."""
        es, offs = [], [0]
        for p in self.pieces:
            if isinstance(p, str):
                for c in p:
                    es.append(ord(c))
                    offs.append(offs[-1] + 1)
            elif isinstance(p, Ch):
                es.append(p.code)
                offs.append(offs[-1] + 1)
            else:
                n = p.b - p.a
                if n > 0:
                    es.append(p)
                    offs.append(offs[-1] + n)
        return es, offs

    def _test(self, codefn, strfn):
        """All characters satisfy a predicate?"""
        es, _ = self.els()
        if not es:
            return False
        return And(*[el_test(e, codefn, strfn) for e in es])

    def isspace(self):
        return self._test(lambda c: in_ranges(c, _ws_ranges()), str.isspace)

    def _pred(self, name):
        return self._test(lambda c: in_ranges(c, pred_ranges(name)), getattr(str, name))

    def isdigit(self): return self._pred("isdigit")
    def isalpha(self): return self._pred("isalpha")
    def isalnum(self): return self._pred("isalnum")
    def isprintable(self): return self._pred("isprintable")

    def lstrip(self, chars=None):
        es, _ = self.els()
        i = 0
        while i < len(es) and el_in(es[i], chars):
            i += 1
        return self if i == 0 else from_els(es[i:])

    def rstrip(self, chars=None):
        es, _ = self.els()
        j = len(es)
        while j > 0 and el_in(es[j - 1], chars):
            j -= 1
        return self if j == len(es) else from_els(es[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def _window(self, sub, start, stop):
        """(elements, offsets, sub elements, base offset) of self[start:stop]; None when out of range."""
        sp = SymStr.of(sub)
        if sp is None:
            raise TypeError("must be str, not %s" % sx_typename(sub))
        ss, _ = SymStr(sp).els()
        base = 0
        s = self
        if start is not None or stop is not None:
            n = self._len
            if start is not None and start > n:
                return None
            a, b = clamp_slice(start, stop, n)
            if a > b:
                return None
            s = self.cut(a, b)
            base = a
        es, offs = SymStr(SymStr.of(s)).els()
        return es, offs, ss, base

    def find(self, sub, start=None, stop=None):
        w = self._window(sub, start, stop)
        if w is None:
            return -1
        es, offs, ss, base = w
        m = len(ss)
        for i in range(0, len(es) - m + 1):
            if els_match(es, i, ss):
                return base + offs[i]
        return -1

    def rfind(self, sub, start=None, stop=None):
        w = self._window(sub, start, stop)
        if w is None:
            return -1
        es, offs, ss, base = w
        m = len(ss)
        for i in range(len(es) - m, -1, -1):
            if els_match(es, i, ss):
                return base + offs[i]
        return -1

    def index(self, sub, start=None, stop=None):
        r = self.find(sub, start, stop)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, stop=None):
        n = 0
        i = 0 if start is None else start
        m = len(sub) if isinstance(sub, str) else ctx().concretize(sub.sx_len())
        while True:
            r = self.find(sub, i, stop)
            if r == -1:
                return n
            n += 1
            i = r + max(m, 1)

    def startswith(self, prefix, start=None, stop=None):
        if isinstance(prefix, tuple):
            return any(self.startswith(p, start, stop) for p in prefix)
        s = self if start is None and stop is None else self[start:stop]
        m = len(prefix) if isinstance(prefix, str) else prefix.sx_len()
        if isinstance(s, str) and isinstance(prefix, str):
            return s.startswith(prefix)
        n = len(s) if isinstance(s, str) else s.sx_len()
        if m > n:
            return False
        return SymStr(SymStr.of(s))[0:m] == prefix

    def endswith(self, suffix, start=None, stop=None):
        if isinstance(suffix, tuple):
            return any(self.endswith(p, start, stop) for p in suffix)
        s = self if start is None and stop is None else self[start:stop]
        m = len(suffix) if isinstance(suffix, str) else suffix.sx_len()
        if isinstance(s, str) and isinstance(suffix, str):
            return s.endswith(suffix)
        n = len(s) if isinstance(s, str) else s.sx_len()
        if m > n:
            return False
        return SymStr(SymStr.of(s))[n - m:n] == suffix

    def replace(self, old, new, count=-1):
        es, _ = self.els()
        os_, _ = SymStr(SymStr.of(old)).els()
        if not os_:
            return self.concrete().replace(old, new, count)
        out = []
        i = 0
        while i < len(es):
            if count != 0 and i + len(os_) <= len(es) and els_match(es, i, os_):
                out.extend(SymStr.of(new))
                i += len(os_)
                count -= 1
            else:
                out.append(el_piece(es[i]))
                i += 1
        return SymStr.make(out)

    def split(self, sep=None, maxsplit=-1):
        es, _ = self.els()
        out = []
        cur = []
        i = 0
        if sep is None:
            if maxsplit != -1:
                raise Unsupported("split(None, maxsplit)")
            for e in es:
                if el_in(e, None):
                    if cur:
                        out.append(from_els(cur))
                    cur = []
                else:
                    cur.append(e)
            if cur:
                out.append(from_els(cur))
            return out
        ss, _ = SymStr(SymStr.of(sep)).els()
        if not ss:
            raise ValueError("empty separator")
        while i < len(es):
            if maxsplit != 0 and i + len(ss) <= len(es) and els_match(es, i, ss):
                out.append(from_els(cur))
                cur = []
                i += len(ss)
                maxsplit -= 1
            else:
                cur.append(es[i])
                i += 1
        out.append(from_els(cur))
        return out

    def splitlines(self, keepends=False):
        es, _ = self.els()
        out = []
        cur = []
        i = 0
        while i < len(es):
            e = es[i]
            if el_test(e, lambda c: in_ranges(c, ((10, 13), (28, 30), (0x85, 0x85), (0x2028, 0x2029))),
                       lambda ch: len(ch.splitlines()) != 1 or ch.splitlines()[0] != ch):
                n = 1
                if not isinstance(e, View) and i + 1 < len(es) and not isinstance(es[i + 1], View) \
                        and And(e == 13, es[i + 1] == 10):
                    n = 2
                out.append(from_els(cur + es[i:i + n] if keepends else cur))
                cur = []
                i += n
                continue
            cur.append(e)
            i += 1
        if cur:
            out.append(from_els(cur))
        return out

    def format(self, *a, **k):
        from .rt import fmt_pieces
        return fmt_pieces(self, a, k)

    def partition(self, sep):
        i = self.find(sep)
        if i == -1:
            return self, "", ""
        m = len(sep) if isinstance(sep, str) else sep.sx_len()
        return self[:i], sep, self[i + m:]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i == -1:
            return "", "", self
        m = len(sep) if isinstance(sep, str) else sep.sx_len()
        return self[:i], sep, self[i + m:]

    def lower(self):
        cs = self.codes()
        if cs is not None and all(isinstance(c, int) for c in cs):
            return from_codes(cs).lower()
        out = []
        for p in self.pieces:
            if isinstance(p, str):
                out.append(p.lower())
            elif isinstance(p, Ch) and isinstance(p.code, SymInt):
                c = p.code
                if And(c >= 65, c <= 90):
                    out.append(Ch(c + 32))
                elif c < 128:
                    out.append(p)
                else:
                    out.append(chr(ctx().pin(c, "lower")).lower())
            else:
                out.append(p)
        return SymStr.make(out)

    def join(self, it):
        return str_join(self, it)

    def encode(self, encoding="utf-8", errors="strict"):
        if str(encoding).lower().replace("_", "-") not in ("utf-8", "utf8"):
            return self.concrete().encode(encoding, errors)
        return SymBytes.make(utf8_pieces(self))

    def ljust(self, w, fill=" "):
        return _pad(self, w, fill, 0)

    def rjust(self, w, fill=" "):
        return _pad(self, w, fill, 1)

    def center(self, w, fill=" "):
        return _pad(self, w, fill, 2)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)

        def call(*a, **k):
            a = [x.concrete() if isinstance(x, Rope) else ctx().concretize(x) if isinstance(x, SymInt) else x
                 for x in a]
            return getattr(self.concrete(), name)(*a, **k)
        return call


def fill(n, ch=" "):
    """n (>=0, may be symbolic) copies of a character."""
    if isinstance(n, int):
        return ch * n
    return SymStr.make([View(FillBase(n, ch), 0, n)])


def _pad(s, w, ch, mode):
    n = s.sx_len() if isinstance(s, SymStr) else len(s)
    if isinstance(s, str) and isinstance(w, int):
        return (s.ljust, s.rjust, s.center)[mode](w, ch)
    if w <= n:
        return s
    k = w - n
    if mode == 0:
        l, r = 0, k
    elif mode == 1:
        l, r = k, 0
    else:
        l = divk(k, 2) if isinstance(k, SymInt) else k // 2
        r = k - l
    return SymStr.make(tuple(SymStr.of(fill(l, ch))) + tuple(SymStr.of(s)) + tuple(SymStr.of(fill(r, ch))))


GENERIC_SAMPLES = "".join(generic_char(i) for i in (0, 5, 20000, 21000, 27500, 27600, 30000, GENERIC_MAX - 1))


def el_test(e, codefn, strfn):
    """A character predicate on an element."""
    if isinstance(e, View):
        if isinstance(e.base, FillBase):
            return strfn(e.base.ch)
        r = {bool(strfn(c)) for c in (GENERIC_SAMPLES if type(e.base) is TextBase else
                                      "0123456789-" if e.base.kind == "int" else "")}
        if len(r) != 1:
            raise Unsupported("character predicate on opaque text")
        return r.pop()
    return codefn(e) if isinstance(e, SymInt) else strfn(chr(e))


def el_in(e, chars):
    """Is (every character of) the element in the set of characters?  Forks."""
    if chars is None:
        return bool(el_test(e, lambda c: in_ranges(c, _ws_ranges()), str.isspace))
    ss, _ = SymStr(SymStr.of(chars)).els()
    if isinstance(e, View):
        return any(el_eq(e, c, True) for c in ss)
    return bool(Or(*[el_eq(e, c) for c in ss]))


def el_eq(a, b, whole=False):
    """Equality of two elements (a code against a view is decided for all its characters)."""
    va, vb = isinstance(a, View), isinstance(b, View)
    if not va and not vb:
        return a == b
    if va and vb:
        if a.base is b.base and same(a.a, b.a) and same(a.b, b.b):
            return True
        if type(a.base) is TextBase and type(b.base) is TextBase:
            if a.base is not b.base:
                return False
            # the characters of a base differ pairwise: the same range, or no common character, or a partial match
            if bool(And(a.a == b.a, a.b == b.b)):
                return True
            if bool(Or(a.b <= b.a, b.b <= a.a)):
                return False
        raise Unsupported("search for generic text")
    v, c = (a, b) if va else (b, a)
    if type(v.base) is TextBase:
        if isinstance(c, SymInt):
            # generic characters differ from every other one
            return False
        return False
    if isinstance(v.base, FillBase):
        r = c == ord(v.base.ch)
        if r is False or r is True and whole:
            return r
        raise Unsupported("search in padding")
    if v.base.kind == "int" and not isinstance(c, SymInt) and chr(c) not in "0123456789-":
        return False
    raise Unsupported("search in formatted text")


def els_match(es, i, ss):
    conds = []
    for k in range(len(ss)):
        c = el_eq(es[i + k], ss[k])
        if c is False:
            return False
        conds.append(c)
    return bool(And(*conds))


def el_piece(e):
    return e if isinstance(e, View) else Ch(e) if isinstance(e, SymInt) else chr(e)


def from_els(es):
    return SymStr.make([el_piece(e) for e in es])


def char_in(code, chars):
    return el_in(code, chars)


def from_codes(cs):
    return SymStr.make([Ch(c) if isinstance(c, SymInt) else chr(c) for c in cs])


def str_lt(x, y):
    xp, yp = SymStr.of(x), SymStr.of(y)
    if xp is None or yp is None:
        raise TypeError("'<' not supported between instances of %r and %r"
                        % (sx_typename(x), sx_typename(y)))
    a, b = chars_of(xp), chars_of(yp)
    if a is None or b is None:
        cx = x.concrete() if isinstance(x, SymStr) else x
        cy = y.concrete() if isinstance(y, SymStr) else y
        return cx < cy
    # formula: exists first differing index
    conds = []
    eq = True
    for i in range(min(len(a), len(b))):
        conds.append(And(eq, a[i] < b[i]))
        eq = And(eq, a[i] == b[i])
    if len(a) < len(b):
        conds.append(eq)
    return Or(*conds)


def sx_typename(x):
    return x.sx_type.__name__ if isinstance(x, Sym) else type(x).__name__


def str_join(sep, it):
    items = list(it)
    out = []
    sp = SymStr.of(sep)
    for k, x in enumerate(items):
        ps = SymStr.of(x)
        if ps is None:
            raise TypeError("sequence item %d: expected str instance, %s found" % (k, sx_typename(x)))
        if k:
            out.extend(sp)
        out.extend(ps)
    return SymStr.make(out)


def utf8_len(s):
    if isinstance(s, str):
        return len(s.encode("utf-8", "surrogatepass"))
    n = 0
    for p in s.pieces:
        if isinstance(p, str):
            n = n + len(p.encode("utf-8", "surrogatepass"))
        elif isinstance(p, Ch):
            c = p.code
            n = n + (Ite(c < 0x80, 1, Ite(c < 0x800, 2, Ite(c < 0x10000, 3, 4)))
                     if isinstance(c, SymInt) else len(chr(c).encode("utf-8", "surrogatepass")))
        elif isinstance(p.base, FillBase):
            n = n + (p.b - p.a) * len(p.base.ch.encode())
        elif isinstance(p.base, FmtBase):
            n = n + (p.b - p.a)
        else:
            n = n + 3 * (p.b - p.a)
    return n


def utf8_pieces(s):
    if isinstance(s, str):
        return [s.encode("utf-8")]
    if not isinstance(s, SymStr):
        raise TypeError("utf-8")
    return [View(t, 0, t.length) for t in [Tok("utf8", s, utf8_len(s))]]


def utf8_decode(b):
    """Inverse of encode on complete tokens."""
    if isinstance(b, bytes):
        return b.decode("utf-8")
    out = []
    for p in b.pieces:
        if isinstance(p, bytes):
            out.append(p.decode("utf-8"))
        elif isinstance(p, View) and isinstance(p.base, Tok) and p.base.kind == "utf8" and p.full():
            out.extend(SymStr.of(p.base.payload))
        elif isinstance(p, View) and isinstance(p.base, Tok) and p.base.kind == "b64" and p.full():
            out.append(View(FmtBase("b64", p.base.payload, p.base.length), 0, p.base.length))
        else:
            raise UnicodeDecodeError("utf-8", b"", 0, 1, "partial token")
    return SymStr.make(out)


# --------------------------------------------------------------------------------------- bytes
class SymBytes(Rope):
    __slots__ = ()
    sx_type = bytes
    LIT = bytes
    EMPTY = b""

    def item(self, i):
        p = 0
        for pc in self.pieces:
            e = p + plen(pc)
            if i < e:
                k = i - p
                if isinstance(pc, bytes):
                    return pc[ctx().concretize(k)]
                t = pc.base
                off = pc.a + k
                if t.kind == "u8":
                    return t.payload
                if t.kind == "int":
                    # big/little endian integer token: payload (value, size, order)
                    v, size, order, signed = t.payload
                    off = ctx().concretize(off)
                    sh = (size - 1 - off) if order == "big" else off
                    return (v // (1 << (8 * sh))) % 256
                if t.kind == "zero":
                    return 0
                raise Unsupported("byte of token %s" % t.kind)
            p = e
        raise IndexError("index out of range")

    def concrete(self):
        raise Unsupported("concrete bytes")

    def decode(self, encoding="utf-8", errors="strict"):
        return utf8_decode(self)

    def join(self, it):
        return bytes_join(self, it)

    def tobytes(self):
        return self

    def startswith(self, prefix):
        n = len(prefix) if isinstance(prefix, bytes) else prefix.sx_len()
        if n > self._len:
            return False
        return self[0:n] == prefix

    def endswith(self, suffix):
        n = len(suffix) if isinstance(suffix, bytes) else suffix.sx_len()
        if n > self._len:
            return False
        return self[self._len - n:self._len] == suffix


def bytes_join(sep, it):
    out = []
    sp = SymBytes.of(sep)
    for k, x in enumerate(it):
        if isinstance(x, (SxByteArray, bytearray, memoryview)):
            x = to_bytes(x)
        ps = SymBytes.of(x)
        if ps is None:
            raise TypeError("sequence item %d: expected a bytes-like object, %s found" % (k, sx_typename(x)))
        if k:
            out.extend(sp)
        out.extend(ps)
    return SymBytes.make(out)


def int_to_bytes(v, length=1, byteorder="big", *, signed=False):
    length = ctx().concretize(length)
    lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
    if not And(v >= lo, v <= hi):
        raise OverflowError("int too big to convert")
    if isinstance(v, int):
        return v.to_bytes(length, byteorder, signed=signed)
    if length == 1 and not signed:
        t = Tok("u8", v, 1)
    else:
        t = Tok("int", (v, length, byteorder, signed), length)
    return SymBytes.make([View(t, 0, length)])


def bytes_to_int(b, byteorder="big", *, signed=False):
    if isinstance(b, (SxByteArray, bytearray)):
        b = to_bytes(b)
    if isinstance(b, bytes):
        return int.from_bytes(b, byteorder, signed=signed)
    if len(b.pieces) == 1:
        p = b.pieces[0]
        if isinstance(p, View) and p.full() and p.base.kind == "int":
            v, size, order, sg = p.base.payload
            if order == byteorder or size == 1:
                if sg == signed:
                    return v
                if signed:
                    return v if v < (1 << (8 * size - 1)) else v - (1 << (8 * size))
                return v if v >= 0 else v + (1 << (8 * size))
        if isinstance(p, View) and p.full() and p.base.kind == "u8":
            v = p.base.payload
            return v if not signed or v < 128 else v - 256
    n = ctx().concretize(b.sx_len())
    bs = [b.item(i) for i in range(n)]
    if byteorder == "little":
        bs.reverse()
    v = 0
    for x in bs:
        v = v * 256 + x
    if signed and n:
        v = v if v < (1 << (8 * n - 1)) else v - (1 << (8 * n))
    return v


def to_bytes(x):
    """bytes(x) for bytes-like or iterables of ints; returns bytes or SymBytes."""
    if isinstance(x, (bytes, SymBytes)):
        return x
    if isinstance(x, SxByteArray):
        return SymBytes.make(x.rope_pieces())
    if isinstance(x, (bytearray, memoryview)):
        return bytes(x)
    if isinstance(x, SymInt):
        return zeros(x)
    if isinstance(x, int):
        return bytes(x)
    out = []
    for v in x:
        if isinstance(v, SymInt):
            if not And(v >= 0, v <= 255):
                raise ValueError("bytes must be in range(0, 256)")
            out.append(View(Tok("u8", v, 1), 0, 1))
        else:
            out.append(bytes([v]))
    return SymBytes.make(out)


def zero_view(n):
    return View(Tok("zero", None, n), 0, n)


def zeros(n):
    if isinstance(n, SymInt):
        if n < 0:
            raise ValueError("negative count")
        return SymBytes.make([zero_view(n)])
    return bytes(n)


class SxByteArray(Sym):
    """bytearray over ropes."""
    __slots__ = ("v", "__weakref__")
    sx_type = bytearray
    __hash__ = None

    def __init__(self, src=b""):
        self.v = zeros(src) if isinstance(src, (int, SymInt)) else to_bytes(src)

    def rope_pieces(self):
        return SymBytes.of(self.v)

    def __deepcopy__(self, memo):
        return SxByteArray(self.v)

    def sx_len(self):
        return len(self.v) if isinstance(self.v, bytes) else self.v.sx_len()

    def __len__(self):
        return ctx().concretize(self.sx_len())

    def __bool__(self):
        return bool(self.sx_len() > 0)

    def _rope(self):
        return self.v if isinstance(self.v, SymBytes) else SymBytes((self.v,))

    def __getitem__(self, i):
        r = self._rope()[i]
        if isinstance(i, slice):
            return SxByteArray(r)
        return r

    def __setitem__(self, i, val):
        n = self.sx_len()
        r = self._rope()
        if isinstance(i, slice):
            if i.step is not None and not same(i.step, 1):
                raise Unsupported("bytearray extended slice assignment")
            a, b = clamp_slice(i.start, i.stop, n)
            if a > b:
                b = a
            left = r.cut(0, a) if not same(a, 0) else b""
            right = r.cut(b, n) if not same(b, n) else b""
            self.v = SymBytes.make(tuple(SymBytes.of(left)) + tuple(SymBytes.of(to_bytes(val)))
                                   + tuple(SymBytes.of(right)))
        else:
            i = sx_index(i)
            if i < 0:
                i = i + n
            if Or(i < 0, i >= n):
                raise IndexError("bytearray index out of range")
            self[i:i + 1] = to_bytes([val])

    def __delitem__(self, i):
        if isinstance(i, slice):
            self[i] = b""
        else:
            i = sx_index(i)
            self[i:i + 1] = b""

    def append(self, x):
        self.v = SymBytes.make(tuple(SymBytes.of(self.v)) + tuple(SymBytes.of(to_bytes([x]))))

    def extend(self, x):
        self.v = SymBytes.make(tuple(SymBytes.of(self.v)) + tuple(SymBytes.of(to_bytes(x))))

    def __iadd__(self, x):
        self.extend(x)
        return self

    def __add__(self, x):
        return SxByteArray(SymBytes.make(tuple(SymBytes.of(self.v)) + tuple(SymBytes.of(to_bytes(x)))))

    def __eq__(self, o):
        if isinstance(o, (SxByteArray, bytes, SymBytes, bytearray)):
            return self._rope() == to_bytes(o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def clear(self):
        self.v = b""

    def __iter__(self):
        i = 0
        while i < self.sx_len():
            yield self._rope().item(i)
            i += 1


def blen(x):
    if isinstance(x, (SymBytes, SxByteArray)):
        return x.sx_len()
    return len(x)


class SxBytesIO(io.BufferedIOBase):
    """io.BytesIO over ropes."""

    def __init__(self, initial=b""):
        super().__init__()
        self._v = to_bytes(initial)
        self._pos = 0
        self._closed = False

    def __deepcopy__(self, memo):
        r = SxBytesIO(self._v)
        r._pos = self._pos
        return r

    def __reduce_ex__(self, proto):
        return (SxBytesIO, (self._v,))

    def _rope(self):
        return self._v if isinstance(self._v, SymBytes) else SymBytes((self._v,))

    def _chk(self):
        if self._closed:
            raise ValueError("I/O operation on closed file.")

    @property
    def closed(self):
        return self._closed

    def close(self):
        self._closed = True

    def __del__(self):
        pass

    def readable(self):
        self._chk()
        return True

    def writable(self):
        self._chk()
        return True

    def seekable(self):
        self._chk()
        return True

    def flush(self):
        pass

    def read(self, n=-1):
        self._chk()
        r = self._rope()
        total = r.sx_len()
        if n is None or n < 0:
            end = total
        else:
            end = self._pos + n
            if end > total:
                end = total
        if self._pos >= end:
            return b""
        out = r.cut(self._pos, end)
        self._pos = end
        return out

    def read1(self, n=-1):
        return self.read(n)

    def readinto(self, b):
        raise Unsupported("readinto")

    def write(self, data):
        self._chk()
        if isinstance(data, (str, core.Sym)) and not isinstance(data, (SymBytes, SxByteArray)):
            raise TypeError("a bytes-like object is required, not %r" % sx_typename(data))
        data = to_bytes(data)
        n = blen(data)
        total = blen(self._v)
        if same(self._pos, total) or self._pos == total:
            self._v = SymBytes.make(tuple(SymBytes.of(self._v)) + tuple(SymBytes.of(data)))
            self._pos = self._pos + n
            return n
        if n == 0:
            return 0
        r = self._rope()
        if self._pos > total:
            left = r + zeros(self._pos - total)
            right = b""
        else:
            left = r.cut(0, self._pos)
            end = self._pos + n
            right = r.cut(end, total) if end < total else b""
        self._v = SymBytes.make(tuple(SymBytes.of(left)) + tuple(SymBytes.of(data)) + tuple(SymBytes.of(right)))
        self._pos = self._pos + n
        return n

    def seek(self, off, whence=0):
        self._chk()
        if whence == 0:
            if off < 0:
                raise ValueError("negative seek value")
            self._pos = off
        elif whence == 1:
            self._pos = self._pos + off
        elif whence == 2:
            self._pos = blen(self._v) + off
        else:
            raise ValueError("invalid whence")
        if self._pos < 0:
            self._pos = 0
        return self._pos

    def tell(self):
        self._chk()
        return self._pos

    def truncate(self, size=None):
        size = self._pos if size is None else size
        if size < blen(self._v):
            self._v = self._rope().cut(0, size)
        return size

    def getvalue(self):
        self._chk()
        return self._v

    def getbuffer(self):
        self._chk()
        return self._v

    def readline(self, *a):
        raise Unsupported("readline")

    def __iter__(self):
        raise Unsupported("iterating lines of a file")

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()


# ------------------------------------------------------------------------------------ equality
def sx_eq(a, b):
    """Deep structural equality giving a condition."""
    if a is b:
        return True
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, Sym) and isinstance(b, Sym) and a.sx_type is not b.sx_type:
            num = (int, bool, float)
            if not (a.sx_type in num and b.sx_type in num):
                return False
        r = a == b
        return r
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            c = sx_eq(x, y)
            if c is False:
                return False
            cs.append(c)
        return And(*cs)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        cs = []
        for k, v in a.items():
            if k not in b:
                return False
            c = sx_eq(v, b[k])
            if c is False:
                return False
            cs.append(c)
        return And(*cs)
    return a == b
