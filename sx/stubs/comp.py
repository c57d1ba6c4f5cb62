"""Compression: compress gives an injective token, decompress inverts complete tokens only."""
import zlib, bz2, lzma, gzip
from ..core import And, ctx
from ..seq import SymBytes, View, Tok, to_bytes, blen, rope_eq


class Codec:
    def __init__(self, kind, compress, decompress, exc):
        self.kind, self.c, self.d, self.exc = kind, compress, decompress, exc
        self.seen = []

    def reset(self):
        self.seen = []

    def compress(self, data, *a, **k):
        data = to_bytes(data)
        if isinstance(data, bytes):
            return self.c(data, *a, **k)
        key = (a, tuple(sorted(k.items())))
        for ps, kk, t in self.seen:
            if kk == key and (ps == data.pieces or rope_eq(None, None, ps, data.pieces) is True):
                return SymBytes.make([View(t, 0, t.length)])
        t = Tok("z:" + self.kind, data, ctx().fresh("ziplen", 9, 1 << 30))
        self.seen.append((data.pieces, key, t))
        return SymBytes.make([View(t, 0, t.length)])

    def decompress(self, data, *a, **k):
        data = to_bytes(data)
        if isinstance(data, bytes):
            return self.d(data, *a, **k)
        if len(data.pieces) == 1:
            p = data.pieces[0]
            if isinstance(p, View) and p.base.kind == "z:" + self.kind \
                    and (p.full() or And(p.a == 0, p.b == p.base.length)):
                return p.base.payload
        raise self.exc("invalid compressed data")


def install(world, out, resets, module):
    def mod(name, real, codec):
        resets.append(codec.reset)
        attrs = {n: getattr(real, n) for n in dir(real) if not n.startswith("__")}
        attrs.update(compress=codec.compress, decompress=codec.decompress)
        out[name] = module(name, **attrs)
        return codec
    mod("zlib", zlib, Codec("zlib", zlib.compress, zlib.decompress, zlib.error))
    mod("bz2", bz2, Codec("bz2", bz2.compress, bz2.decompress, OSError))
    mod("lzma", lzma, Codec("lzma", lzma.compress, lzma.decompress, lzma.LZMAError))
    mod("gzip", gzip, Codec("gzip", gzip.compress, gzip.decompress, EOFError))
    try:
        import lz4.frame as lf
        mod("lz4.frame", lf, Codec("lz4", lf.compress, lf.decompress, RuntimeError))
        out["lz4"] = module("lz4", frame=out["lz4.frame"])
    except ImportError:
        pass
    try:
        import zstd
        mod("zstd", zstd, Codec("zstd", zstd.compress, zstd.decompress, getattr(zstd, "Error", RuntimeError)))
    except ImportError:
        pass
