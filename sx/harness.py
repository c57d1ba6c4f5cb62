"""The interface harnesses are written against; the same harness runs symbolically and concretely."""
import os
import shutil
import tempfile
from . import core
from .core import (SymInt, SymBool, SymFloat, Sym, And, Or, Not, Implies, Iff, Ite, Control, Abandon, CheckFailed,
                   Unsupported)
from .seq import SymStr, SymBytes, View, Ch, TextBase, Tok, generic_text, GENERIC_MAX, SxByteArray, FmtBase, FillBase
from .containers import SxDict, SxSet


class ReplayAbandon(BaseException):
    """The concrete inputs do not satisfy an assumption."""


class ReplayFailed(BaseException):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


def blob_bytes(n, index):
    """Replayed bytes of a generic blob: never valid UTF-8, distinct per blob."""
    seed = bytes([0xff, 0xfe, 0x80 + index % 64])
    return (seed * (n // 3 + 1))[:n]


class Base:
    And, Or, Not, Implies, Iff, Ite = map(staticmethod, (And, Or, Not, Implies, Iff, Ite))

    def eq(self, a, b):
        from .seq import sx_eq
        return sx_eq(a, b)


class SymH(Base):
    symbolic = True

    def __init__(self, world, ctx):
        self.world, self.ctx = world, ctx
        self.inputs = {}          # name -> (kind, value)
        self.observed = []
        self.nbase = 0
        self.nblob = 0
        self._java = None
        from .stubs import mp
        mp.LITERAL = False

    def literal(self):
        """MessagePack is written as the bytes of the format, as other readers need it"""
        from .stubs import mp
        mp.LITERAL = True

    # ---- inputs
    def _in(self, name, kind, v):
        if name in self.inputs:
            raise core.EngineError("input %s created twice" % name)
        self.inputs[name] = (kind, v)
        return v

    def int(self, name, lo, hi):
        if lo == hi:
            return self._in(name, "int", lo)
        return self._in(name, "int", self.ctx.var(name, lo, hi))

    def bool(self, name):
        return self._in(name, "int", self.ctx.var(name, 0, 1)) == 1

    def choose(self, name, options):
        options = list(options)
        return options[self._in(name, "int", self.ctx.choose(len(options), name))]

    def float(self, name, lo, hi, den=2):
        """A float of the form k/den, lo*den <= k <= hi*den."""
        return SymFloat(self._in(name, "int", self.ctx.var(name, lo * den, hi * den)), den)

    def text(self, name, lo, hi):
        """A text of lo..hi pairwise different, non-ASCII, non-space characters."""
        assert hi <= GENERIC_MAX
        n = self._in(name, "int", self.ctx.var(name, lo, hi)) if lo != hi else self._in(name, "int", lo)
        b = TextBase(name, n, self.nbase)
        self.nbase += 1
        return SymStr.make([View(b, 0, n)])

    def blob(self, name, lo, hi):
        n = self._in(name, "int", self.ctx.var(name, lo, hi)) if lo != hi else self._in(name, "int", lo)
        i = self.nblob
        self.nblob += 1
        return SymBytes.make([View(Tok("blob", name, n), 0, n)])

    def chars(self, name, n, lo=0, hi=0x10FFFF, surrogates=False):
        cs = []
        for i in range(n):
            nm = "%s[%d]" % (name, i)
            c = self._in(nm, "int", self.ctx.var(nm, lo, hi))
            if not surrogates and hi >= 0xD800 and lo <= 0xDFFF:
                self.assume(Or(c < 0xD800, c > 0xDFFF))
            cs.append(Ch(c))
        return SymStr.make(cs)

    # ---- properties
    def assume(self, c):
        if not isinstance(c, SymBool):
            c = bool(c)
        self.ctx.assume(c)

    def check(self, c, msg):
        from .rt import sx_truth
        if not isinstance(c, (SymBool, bool)):
            c = sx_truth(c)
        self.ctx.check(c, msg)

    def fail(self, msg):
        self.ctx.check(False, msg)

    def observe(self, name, v):
        self.observed.append((name, v))

    def load(self, name):
        return self.world.load(name)

    def tarfile(self):
        return self.world.stubs["tarfile"]

    def java(self, name, *args):
        """calls a method of the Java driver"""
        if self._java is None:
            from .jvm.facade import SymJava
            self._java = SymJava()
        return self._java(name, *args)

    def tmpdir(self):
        return "/vfs"

    def schedule(self, name):
        """From here on process pools finish their tasks, and directories list their entries, in any order."""
        n = [0]

        def order(k):
            n[0] += 1
            left, out = list(range(k)), []
            while left:
                out.append(left.pop(self.concrete(self.int("%s%d_%d" % (name, n[0], len(out)), 0, len(left) - 1))))
            return out
        self.world.fs.order = order

    def putfile(self, path, data):
        f = self.world.fs.open(path, "wb")
        f.write(data)
        f.close()

    def io(self, data=b""):
        from .seq import SxBytesIO
        return SxBytesIO(data)

    def printed(self, fn):
        """what fn prints to standard output"""
        from . import rt
        rt.PRINTED = []
        try:
            fn()
            out = ""
            for x in rt.PRINTED:
                out = out + x
            return out
        finally:
            rt.PRINTED = None

    def xml(self, data):
        """The root element of an XML document (ParseError when it is not well-formed)."""
        return self.world.stubs["xml.etree.ElementTree"].fromstring(data)

    def concrete(self, v):
        return self.ctx.concretize(v) if isinstance(v, SymInt) else bool(v) if isinstance(v, SymBool) else v

    def length(self, x):
        from .rt import sx_len
        return sx_len(x)

    def opaque_codec(self, hi=300000):
        """(compress, decompress): arbitrary injective compression with arbitrary output length."""
        ctx = self.ctx
        h = self
        state = []

        def compress(data):
            from .seq import to_bytes
            data = to_bytes(data)
            i = len(state)
            n = h.int("zlen%d" % i, 1, hi)
            t = Tok("z:h", data, n)
            state.append(t)
            return SymBytes.make([View(t, 0, n)])

        def decompress(data):
            if isinstance(data, SymBytes) and len(data.pieces) == 1:
                p = data.pieces[0]
                if isinstance(p, View) and p.base.kind == "z:h" and p.full():
                    return p.base.payload
            raise ValueError("corrupt block")
        return compress, decompress

    # ---- evaluation under the model
    def values(self):
        return {k: int(self.ctx.value(v)) for k, (kind, v) in self.inputs.items()}

    def evaluate(self, v):
        return evaluate(self.ctx, v)


def evaluate(c, v):
    """Concrete counterpart of an observed value under the current model."""
    if isinstance(v, SymInt):
        return c.value(v)
    if isinstance(v, SymBool):
        return bool(c.value(v))
    if isinstance(v, SymFloat):
        return c.value(v.num) / v.den
    if isinstance(v, SymStr):
        out = []
        for p in v.pieces:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, Ch):
                out.append(chr(c.value(p.code)))
            elif isinstance(p.base, FillBase):
                out.append(p.base.ch * c.value(p.b - p.a))
            elif isinstance(p.base, FmtBase):
                if p.base.kind != "int":
                    return OPAQUE
                out.append(str(c.value(p.base.payload))[c.value(p.a):c.value(p.b)])
            else:
                a, b = c.value(p.a), c.value(p.b)
                out.append(generic_text(b, p.base.index)[a:b])
        return "".join(out)
    if isinstance(v, (SymBytes, SxByteArray)):
        return OPAQUE
    if isinstance(v, Sym):
        return OPAQUE
    if isinstance(v, (list, tuple)):
        return [evaluate(c, x) for x in v]
    if isinstance(v, dict):
        return {evaluate(c, k): evaluate(c, x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return OPAQUE
    return v


class _Opaque:
    def __repr__(self):
        return "<opaque>"

    def __hash__(self):
        return 0


OPAQUE = _Opaque()


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def agree(s, r):
    """Does a symbolic observation (evaluated) agree with the real one?"""
    if s is OPAQUE:
        return True
    if isinstance(s, list) and isinstance(r, list):
        return len(s) == len(r) and all(agree(a, b) for a, b in zip(s, r))
    if isinstance(s, dict) and isinstance(r, dict):
        if any(k is OPAQUE for k in s):
            return len(s) == len(r)
        return s.keys() == r.keys() and all(agree(s[k], r[k]) for k in s)
    if isinstance(s, float) or isinstance(r, float):
        try:
            return float(s) == float(r)
        except (TypeError, ValueError, OverflowError):
            return s == r
    return s == r


class RealH(Base):
    symbolic = False

    def __init__(self, world, values):
        self.world, self.vals = world, values
        self.observed = []
        self.nbase = 0
        self.nblob = 0
        self._tmp = None
        self._undo = []

    def _get(self, name, lo):
        return self.vals.get(name, lo)

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def bool(self, name):
        return bool(self._get(name, 0))

    def choose(self, name, options):
        return list(options)[self._get(name, 0)]

    def float(self, name, lo, hi, den=2):
        return self._get(name, lo * den) / den

    def text(self, name, lo, hi):
        t = generic_text(self._get(name, lo), self.nbase)
        self.nbase += 1
        return t

    def literal(self):
        pass

    def blob(self, name, lo, hi):
        b = blob_bytes(self._get(name, lo), self.nblob)
        self.nblob += 1
        return b

    def chars(self, name, n, lo=0, hi=0x10FFFF, surrogates=False):
        return "".join(chr(self._get("%s[%d]" % (name, i), lo)) for i in range(n))

    def assume(self, c):
        if not c:
            raise ReplayAbandon()

    def check(self, c, msg):
        if not c:
            raise ReplayFailed(msg)

    def fail(self, msg):
        raise ReplayFailed(msg)

    def observe(self, name, v):
        self.observed.append((name, v))

    def load(self, name):
        return self.world.load(name)

    def tarfile(self):
        import tarfile
        return tarfile

    def java(self, name, *args):
        from .jvm.facade import RealJava
        return RealJava()(name, *args)

    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="sxreplay")
        return self._tmp

    def schedule(self, name):
        import multiprocessing
        from .stubs.misc import NoBar, make_pool
        n = [0]

        def order(k):
            n[0] += 1
            left, out = list(range(k)), []
            while left:
                out.append(left.pop(self._get("%s%d_%d" % (name, n[0], len(out)), 0)))
            return out
        import pickle
        real_listdir, real_scandir = os.listdir, os.scandir

        def permuted(xs, key):
            xs = sorted(xs, key=key)
            return [xs[i] for i in order(len(xs))]

        class Scan(list):
            def __enter__(self): return self
            def __exit__(self, *a): pass
            def close(self): pass

        patches = [(multiprocessing, "Pool", make_pool(lambda: order, lambda o: pickle.loads(pickle.dumps(o)))),
                   (os, "listdir", lambda p=".": permuted(real_listdir(p), None)),
                   (os, "scandir", lambda p=".": Scan(permuted(real_scandir(p), lambda e: e.name)))]
        try:
            import tqdm
            patches.append((tqdm, "tqdm", NoBar))
        except ImportError:
            pass
        for o, a, v in patches:
            self._undo.append((o, a, getattr(o, a)))
            setattr(o, a, v)

    def putfile(self, path, data):
        with open(path, "wb") as f:
            f.write(data)

    def io(self, data=b""):
        from io import BytesIO
        return BytesIO(data)

    def printed(self, fn):
        import contextlib
        import io
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            fn()
        return out.getvalue()

    def xml(self, data):
        from xml.etree import ElementTree
        return ElementTree.fromstring(data)

    def concrete(self, v):
        return v

    def length(self, x):
        return len(x)

    def opaque_codec(self, hi=300000):
        state = {}
        h = self

        def compress(data):
            i = len(state)
            n = h._get("zlen%d" % i, 1)
            out = b"\xfd" * (n - 2) + bytes([i >> 8, i & 255]) if n >= 2 else bytes([0xc0 + i])
            out = out[-n:]
            state[out] = bytes(data)
            return out

        def decompress(data):
            if bytes(data) in state:
                return state[bytes(data)]
            raise ValueError("corrupt block")
        return compress, decompress

    def cleanup(self):
        while self._undo:
            o, a, v = self._undo.pop()
            setattr(o, a, v)
        if self._tmp is not None and self._tmp.startswith(tempfile.gettempdir() + "/sxreplay"):
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None
