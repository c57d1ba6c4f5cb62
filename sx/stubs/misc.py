"""io, collections, time, copy, warnings, logging, tqdm."""
import collections
import copy
import io
import time
from ..core import Sym, Unsupported
from ..seq import SxBytesIO
from ..containers import SxDict, SxDefaultDict


class NoBar:
    """tqdm: passes through."""

    def __init__(self, iterable=None, *a, **k):
        self.iterable = iterable

    def __iter__(self): return iter(self.iterable)
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def update(self, n=1): pass
    def close(self): pass
    def set_description(self, *a, **k): pass
    def set_postfix(self, *a, **k): pass
    def refresh(self): pass

    @staticmethod
    def write(*a, **k): pass


def make_pool(get_order, transfer):
    """multiprocessing.Pool: tasks run in other processes (arguments and results are copies), unordered results come in the
    order that get_order gives."""
    class Result:
        def __init__(self, f): self.f = f
        def get(self, timeout=None): return self.f()
        def wait(self, timeout=None): pass
        def ready(self): return True

    class Pool:
        def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
            if processes is not None and processes < 1:
                raise ValueError("Number of processes must be at least 1")
            if initializer is not None:
                initializer(*initargs)
            self.closed = False

        def _run(self, fn, args, kw={}):
            q = getattr(fn, "__qualname__", "")
            if "<locals>" in q or "<lambda>" in q:
                raise AttributeError("Can't pickle local object %r" % q)
            return transfer(fn(*transfer(tuple(args)), **kw))

        def _chk(self):
            if self.closed:
                raise ValueError("Pool not running")

        def imap_unordered(self, fn, it, chunksize=1):
            self._chk()
            items = list(it)
            o = get_order()
            return (self._run(fn, (items[i],)) for i in (o(len(items)) if o else range(len(items))))

        def imap(self, fn, it, chunksize=1):
            self._chk()
            items = list(it)
            return (self._run(fn, (x,)) for x in items)

        def map(self, fn, it, chunksize=None):
            return list(self.imap(fn, it))

        def starmap(self, fn, it, chunksize=None):
            self._chk()
            return [self._run(fn, tuple(x)) for x in it]

        def apply(self, fn, args=(), kwds={}):
            self._chk()
            return self._run(fn, args, kwds)

        def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
            r = self.apply(fn, args, kwds)
            if callback:
                callback(r)
            return Result(lambda: r)

        def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
            r = self.map(fn, it)
            if callback:
                callback(r)
            return Result(lambda: r)

        def close(self): self.closed = True
        def terminate(self): self.closed = True
        def join(self): pass
        def __enter__(self): return self
        def __exit__(self, *a): self.closed = True
    return Pool


def counter(it=()):
    d = SxDefaultDict(int)
    for x in it:
        d[x] = d[x] + 1
    return d


def install(world, out, resets, module):
    attrs = {n: getattr(io, n) for n in dir(io) if not n.startswith("_")}
    attrs.update(BytesIO=SxBytesIO, open=lambda *a, **k: out["__open__"](*a, **k),
                 BufferedReader=lambda raw, *a, **k: raw, BufferedWriter=lambda raw, *a, **k: raw)
    out["io"] = module("io", **attrs)
    attrs = {n: getattr(collections, n) for n in dir(collections) if not n.startswith("_")}
    attrs.update(defaultdict=SxDefaultDict, OrderedDict=SxDict, Counter=counter, abc=collections.abc)
    out["collections"] = module("collections", **attrs)
    out["time"] = module("time", time=lambda: 1600000000.0, sleep=lambda s: None,
                         perf_counter=lambda: 0.0, monotonic=lambda: 0.0)
    pk = out["pickle"]
    out["multiprocessing"] = module("multiprocessing", cpu_count=lambda: 8,
                                    Pool=make_pool(lambda: world.fs.order, lambda o: pk.loads(pk.dumps(o))))
    out["tqdm"] = module("tqdm", tqdm=NoBar, trange=lambda *a, **k: NoBar(range(*a)))
