"""MessagePack: values become sequences of header/payload tokens with exact byte lengths."""
import struct
import msgpack as real
from ..core import Sym, SymInt, SymBool, SymFloat, And, Ite, Unsupported, ctx
from ..seq import (SymStr, SymBytes, SxByteArray, SxBytesIO, View, Tok, same, to_bytes, utf8_pieces,
                   utf8_decode, blen, plen, psub, int_to_bytes)
from ..containers import SxDict

UnpackValueError = getattr(real, "UnpackValueError", ValueError)
OutOfData = real.OutOfData
PackValueError = real.PackValueError
PackOverflowError = getattr(real, "PackOverflowError", OverflowError)


# True: numbers and headers are written as the bytes of the format (for other readers than the one below)
LITERAL = False


def number(v, n):
    return [int_to_bytes(v // 256 ** k % 256) for k in range(n - 1, -1, -1)]


def literal_int(o):
    if o >= 0:
        if o <= 0x7f:
            return number(o, 1)
        for head, n in ((0xcc, 1), (0xcd, 2), (0xce, 4)):
            if o < 256 ** n:
                return [bytes([head])] + number(o, n)
        return [b"\xcf"] + number(o, 8)
    if o >= -32:
        return number(o + 256, 1)
    for head, n in ((0xd0, 1), (0xd1, 2), (0xd2, 4)):
        if o >= -(256 ** n // 2):
            return [bytes([head])] + number(o + 256 ** n, n)
    return [b"\xd3"] + number(o + 256 ** 8, 8)


def literal_header(kind, n, bin_type):
    if kind == "bin" and bin_type:
        heads = ((0xc4, 1), (0xc5, 2), (0xc6, 4))
    elif kind in ("bin", "str"):
        if n <= 31:
            return number(0xa0 + n, 1)
        heads = ((0xd9, 1), (0xda, 2), (0xdb, 4)) if bin_type else ((0xda, 2), (0xdb, 4))
    else:
        if n <= 15:
            return number((0x90 if kind == "arr" else 0x80) + n, 1)
        heads = ((0xdc, 2), (0xdd, 4)) if kind == "arr" else ((0xde, 2), (0xdf, 4))
    for head, k in heads:
        if n < 256 ** k:
            return [bytes([head])] + number(n, k)


def tok(kind, payload, length):
    return View(Tok(kind, payload, length), 0, length)


def int_len(v):
    return Ite(v >= 0,
               Ite(v <= 0x7f, 1, Ite(v <= 0xff, 2, Ite(v <= 0xffff, 3, Ite(v <= 0xffffffff, 5, 9)))),
               Ite(v >= -0x20, 1, Ite(v >= -0x80, 2, Ite(v >= -0x8000, 3, Ite(v >= -0x80000000, 5, 9)))))


class Packer:
    def __init__(self, default=None, encoding=None, unicode_errors=None, use_single_float=False,
                 autoreset=True, use_bin_type=False, strict_types=False):
        self._default = default
        self._use_bin_type = use_bin_type
        self._single = use_single_float
        self._strict = strict_types
        self._native = real.Packer(use_bin_type=use_bin_type, use_single_float=use_single_float)
        self._autoreset = autoreset
        self._buf = []

    def _hdr(self, kind, n, out):
        if not isinstance(n, SymInt):
            if kind == "arr":
                out.append(self._native.pack_array_header(n))
            elif kind == "map":
                out.append(self._native.pack_map_header(n))
            elif kind == "str" or (kind == "bin" and not self._use_bin_type):
                if n <= 0x1f:
                    out.append(struct.pack("B", 0xa0 + n))
                elif self._use_bin_type and n <= 0xff:
                    out.append(struct.pack(">BB", 0xd9, n))
                elif n <= 0xffff:
                    out.append(struct.pack(">BH", 0xda, n))
                else:
                    out.append(struct.pack(">BI", 0xdb, n))
            else:
                out.append(struct.pack(">BB", 0xc4, n) if n <= 0xff else struct.pack(">BH", 0xc5, n)
                           if n <= 0xffff else struct.pack(">BI", 0xc6, n))
            return
        if n > 0xffffffff:
            raise PackValueError("too large")
        if LITERAL:
            out.extend(p for b in literal_header(kind, n, self._use_bin_type) for p in SymBytes.of(b))
            return
        if kind == "bin" and self._use_bin_type:
            out.append(tok("mp_bin", n, Ite(n <= 0xff, 2, Ite(n <= 0xffff, 3, 5))))
        elif kind in ("bin", "str"):
            if self._use_bin_type:
                ln = Ite(n <= 0x1f, 1, Ite(n <= 0xff, 2, Ite(n <= 0xffff, 3, 5)))
            else:
                ln = Ite(n <= 0x1f, 1, Ite(n <= 0xffff, 3, 5))
            out.append(tok("mp_str", n, ln))
        else:
            out.append(tok("mp_" + kind, n, Ite(n <= 0x0f, 1, Ite(n <= 0xffff, 3, 5))))

    def _pack(self, o, out, depth=500, used=False):
        if depth < 0:
            raise PackValueError("recursion limit exceeded")
        if o is None:
            out.append(b"\xc0")
        elif isinstance(o, SymBool):
            # one byte either way: keep it as a token instead of forking
            out.append(tok("mp_bool", o, 1) if not LITERAL else b"\xc3" if o else b"\xc2")
        elif isinstance(o, SymInt):
            if not And(o >= -(1 << 63), o < (1 << 64)):
                raise PackOverflowError("Integer value out of range")
            if LITERAL:
                out.extend(p for b in literal_int(o) for p in SymBytes.of(b))
            else:
                out.append(tok("mp_int", o, int_len(o)))
        elif isinstance(o, SymFloat):
            out.append(tok("mp_f64", o, 9))
        elif isinstance(o, (SymBytes, SxByteArray)):
            b = to_bytes(o)
            self._hdr("bin", blen(b), out)
            out.extend(SymBytes.of(b))
        elif isinstance(o, SymStr):
            ps = utf8_pieces(o)
            self._hdr("str", sum((plen(p) for p in ps), 0), out)
            out.extend(ps)
        elif isinstance(o, Sym):
            raise TypeError("Cannot serialize %s" % o.sx_type.__name__)
        elif isinstance(o, list) or (isinstance(o, tuple) and not isinstance(o, real.ExtType)):
            if self._strict and type(o) is not list:
                raise TypeError("Cannot serialize %r" % type(o))
            self._hdr("arr", len(o), out)
            for x in o:
                self._pack(x, out, depth - 1)
        elif isinstance(o, dict):
            self._hdr("map", len(o), out)
            for k, v in o.items():
                self._pack(k, out, depth - 1)
                self._pack(v, out, depth - 1)
        else:
            try:
                out.append(self._native.pack(o))
            except TypeError:
                if self._default is not None and not used:
                    return self._pack(self._default(o), out, depth, True)
                raise

    def _finish(self, out):
        return SymBytes.make(out)

    def pack(self, o):
        out = []
        self._pack(o, out)
        return self._finish(out)

    def pack_array_header(self, n):
        out = []
        self._hdr("arr", n, out)
        return self._finish(out)

    def pack_map_header(self, n):
        out = []
        self._hdr("map", n, out)
        return self._finish(out)

    def pack_map_pairs(self, pairs):
        pairs = list(pairs)
        out = []
        self._hdr("map", len(pairs), out)
        for k, v in pairs:
            self._pack(k, out)
            self._pack(v, out)
        return self._finish(out)

    def reset(self):
        pass


def packb(o, **kw):
    return Packer(**kw).pack(o)


def pack(o, stream, **kw):
    stream.write(Packer(**kw).pack(o))


class Unpacker:
    """Structural reader of token streams; concrete stretches are parsed byte by byte."""

    def __init__(self, file_like=None, read_size=0, use_list=True, raw=True, object_hook=None,
                 object_pairs_hook=None, list_hook=None, encoding=None, unicode_errors=None, max_buffer_size=0,
                 ext_hook=real.ExtType, **limits):
        for k in limits:
            if k not in ("max_str_len", "max_bin_len", "max_array_len", "max_map_len", "max_ext_len"):
                raise TypeError("unexpected keyword argument %r" % k)
        self._file = file_like
        if file_like is not None and not callable(file_like.read):
            raise TypeError("`file_like.read` must be callable")
        self._read_size = read_size or 16 * 1024
        self._raw, self._use_list = raw, use_list
        self._hook, self._pairs, self._lhook, self._ext = object_hook, object_pairs_hook, list_hook, ext_hook
        self._buf = []           # pieces from the checkpoint on
        self._i = 0              # index of the current piece
        self._off = 0            # offset inside it
        self._avail = 0          # bytes in the buffer from the cursor on
        self._used = 0           # bytes between checkpoint and cursor
        self._stream = 0
        self._eof = False

    # ---- buffer
    def feed(self, data):
        assert self._file is None
        self._append(data)

    def _append(self, data):
        data = to_bytes(data)
        for p in SymBytes.of(data):
            if self._buf and isinstance(p, View) and isinstance(self._buf[-1], View) \
                    and self._buf[-1].base is p.base and same(self._buf[-1].b, p.a):
                self._buf[-1] = View(p.base, self._buf[-1].a, p.b)
            else:
                self._buf.append(p)
        self._avail = self._avail + blen(data)

    def _reserve(self, n):
        if self._avail >= n:
            return
        if self._file is None:
            self._rollback()
            raise OutOfData()
        while self._avail < n:
            if isinstance(self._file, SxBytesIO):
                d = self._file.read()
            else:
                remain = n - self._avail
                d = self._file.read(remain if remain > self._read_size else self._read_size)
            if isinstance(d, bytes) and not d:
                break
            if not isinstance(d, (bytes, SymBytes)):
                raise AssertionError()
            if isinstance(d, SymBytes) and not (d.sx_len() > 0):
                break
            self._append(d)
        if self._avail < n:
            self._rollback()
            raise OutOfData()

    def _rollback(self):
        self._avail = self._avail + self._used
        self._used = 0
        self._i = 0
        self._off = 0

    def _consume(self):
        self._stream = self._stream + self._used
        self._used = 0
        del self._buf[:self._i]
        self._i = 0
        if not same(self._off, 0) and self._buf:
            p = self._buf[0]
            self._buf[0] = psub(p, self._off, plen(p))
            self._off = 0

    def _cur(self):
        """Current piece, skipping empty and exhausted ones."""
        while True:
            p = self._buf[self._i]
            n = plen(p)
            if same(self._off, 0):
                if not isinstance(n, SymInt) or n > 0:
                    if n != 0:
                        return p
            elif self._off < n:
                return p
            self._i += 1
            self._off = 0

    def _adv(self, n):
        self._used = self._used + n
        self._avail = self._avail - n

    def _take(self, n):
        """n bytes as a rope."""
        self._reserve(n)
        out = []
        left = n
        while True:
            if not isinstance(left, SymInt) and left == 0:
                break
            if isinstance(left, SymInt) and not (left > 0):
                break
            p = self._cur()
            rest = plen(p) - self._off
            if same(rest, left) or rest <= left:
                out.append(p if same(self._off, 0) else psub(p, self._off, plen(p)))
                left = 0 if same(rest, left) else left - rest
                self._i += 1
                self._off = 0
            else:
                out.append(psub(p, self._off, self._off + left))
                self._off = self._off + left
                left = 0
        self._adv(n)
        return SymBytes.make(out)

    def _byte(self):
        b = self._take(1)
        return b[0] if isinstance(b, bytes) else b.item(0)

    def _uint(self, k):
        b = self._take(k)
        if isinstance(b, bytes):
            return int.from_bytes(b, "big")
        from ..seq import bytes_to_int
        return bytes_to_int(b)

    # ---- headers
    def _header(self):
        """-> (type, n, obj)"""
        self._reserve(1)
        p = self._cur()
        if isinstance(p, View) and isinstance(p.base, Tok) and p.base.kind.startswith("mp_"):
            t = p.base
            if not same(self._off, 0) or not same(p.a, 0) and not (p.a == 0):
                raise UnpackValueError("misaligned read inside a %s" % t.kind)
            if not same(p.b, t.length) and not (p.b == t.length):
                # the rest of the token may still be in the file
                self._reserve(t.length)
                p = self._cur()
                if not same(p.b, t.length) and not (p.b == t.length):
                    raise UnpackValueError("spliced %s" % t.kind)
            self._i += 1
            self._off = 0
            self._adv(t.length)
            k = t.kind[3:]
            if k in ("int", "f64", "bool"):
                return "imm", 0, t.payload
            if k in ("str", "bin"):
                return k, 0, self._take(t.payload)
            return k, t.payload, None
        b = self._byte()
        if isinstance(b, SymInt):
            if b < 0x80:
                return "imm", 0, b
            if b >= 0xe0:
                return "imm", 0, b - 256
            b = ctx().concretize(b)
        if b < 0x80:
            return "imm", 0, b
        if b >= 0xe0:
            return "imm", 0, b - 256
        if b & 0xe0 == 0xa0:
            return "str", 0, self._take(b & 0x1f)
        if b & 0xf0 == 0x90:
            return "arr", b & 15, None
        if b & 0xf0 == 0x80:
            return "map", b & 15, None
        if b == 0xc0:
            return "imm", 0, None
        if b == 0xc2:
            return "imm", 0, False
        if b == 0xc3:
            return "imm", 0, True
        if b in (0xc4, 0xc5, 0xc6):
            return "bin", 0, self._take(self._uint(1 << (b - 0xc4)))
        if b in (0xd9, 0xda, 0xdb):
            return "str", 0, self._take(self._uint(1 << (b - 0xd9)))
        if b in (0xdc, 0xdd):
            return "arr", self._uint(2 << (b - 0xdc)), None
        if b in (0xde, 0xdf):
            return "map", self._uint(2 << (b - 0xde)), None
        if 0xcc <= b <= 0xcf:
            return "imm", 0, self._uint(1 << (b - 0xcc))
        if 0xd0 <= b <= 0xd3:
            k = 1 << (b - 0xd0)
            v = self._uint(k)
            h = 1 << (8 * k - 1)
            return "imm", 0, (v - 2 * h if v >= h else v)
        if b == 0xca or b == 0xcb:
            k = 4 if b == 0xca else 8
            d = self._take(k)
            if not isinstance(d, bytes):
                raise UnpackValueError("misaligned float")
            return "imm", 0, struct.unpack(">f" if k == 4 else ">d", d)[0]
        if b in (0xc7, 0xc8, 0xc9):
            n = self._uint(1 << (b - 0xc7))
            c = self._byte()
            return "ext", c if c < 128 else c - 256, self._take(n)
        if 0xd4 <= b <= 0xd8:
            c = self._byte()
            return "ext", c if c < 128 else c - 256, self._take(1 << (b - 0xd4))
        raise UnpackValueError("Unknown header: 0x%x" % b)

    def _unpack(self, skip=False, want=None):
        t, n, o = self._header()
        if want:
            if t != want:
                raise UnpackValueError("Expected array" if want == "arr" else "Expected map")
            return n
        if t in ("arr", "map") and isinstance(n, SymInt):
            n = ctx().concretize(n)
        if t == "arr":
            if skip:
                for _ in range(n):
                    self._unpack(True)
                return None
            if n > (1 << 20):
                raise Unsupported("huge array header")
            r = [self._unpack() for _ in range(n)]
            if self._lhook is not None:
                r = self._lhook(r)
            return r if self._use_list else tuple(r)
        if t == "map":
            if skip:
                for _ in range(2 * n):
                    self._unpack(True)
                return None
            if n > (1 << 20):
                raise Unsupported("huge map header")
            if self._pairs is not None:
                return self._pairs((self._unpack(), self._unpack()) for _ in range(n))
            d = SxDict()
            for _ in range(n):
                k = self._unpack()
                d[k] = self._unpack()
            return self._hook(d) if self._hook is not None else d
        if skip:
            return None
        if t == "str":
            return o if self._raw else utf8_decode(o)
        if t == "ext":
            if self._ext is real.ExtType and not isinstance(o, bytes):
                return tuple.__new__(real.ExtType, (n, o))
            return self._ext(n, o)
        return o

    def __iter__(self):
        return self

    def __next__(self):
        try:
            r = self._unpack()
            self._consume()
            return r
        except OutOfData:
            self._consume()
            raise StopIteration

    next = __next__

    def skip(self, write_bytes=None):
        self._unpack(True)
        self._consume()

    def unpack(self, write_bytes=None):
        r = self._unpack()
        self._consume()
        return r

    def read_array_header(self, write_bytes=None):
        r = self._unpack(want="arr")
        self._consume()
        return r

    def read_map_header(self, write_bytes=None):
        r = self._unpack(want="map")
        self._consume()
        return r

    def read_bytes(self, n):
        r = self._take(n)
        return SxByteArray(r)

    def tell(self):
        return self._stream


def unpackb(data, **kw):
    u = Unpacker(None, **kw)
    u.feed(data)
    try:
        r = u._unpack()
    except OutOfData:
        raise real.UnpackValueError("Data is not enough.")
    if u._avail > 0:
        raise real.ExtraData(r, b"")
    return r


def unpack(stream, **kw):
    return unpackb(stream.read(), **kw)


def install(world, out, resets, module):
    names = {n: getattr(real, n) for n in dir(real) if isinstance(getattr(real, n), type)
             and issubclass(getattr(real, n), Exception)}
    m = module("msgpack", Packer=Packer, Unpacker=Unpacker, pack=pack, packb=packb, unpack=unpack,
               unpackb=unpackb, dump=pack, dumps=packb, load=unpack, loads=unpackb, ExtType=real.ExtType,
               version=real.version, **names)
    out["msgpack"] = m
    out["msgpack.fallback"] = m
