"""A virtual file system, tar archives and pickle files."""
import copy
import os
import pickle
import tarfile
from ..core import Sym, SymInt, Unsupported, ctx
from ..seq import SxBytesIO, SymBytes, SymStr, View, Tok, to_bytes, blen, same
from ..containers import SxDict, SxSet, SxDefaultDict


class FS:
    def __init__(self):
        self.files = {}
        self.order = None

    def reset(self):
        self.files.clear()
        self.order = None

    def entries(self, path):
        d = self.key(path).rstrip("/") + "/"
        if not any(k.startswith(d) for k in self.files) and d != "/vfs/":
            if d.startswith("/vfs/"):
                raise FileNotFoundError(2, "No such file or directory", path)
            raise Unsupported("listing a real directory")
        names = sorted({k[len(d):].split("/")[0] for k in self.files if k.startswith(d)})
        return [names[i] for i in self.order(len(names))] if self.order else names

    def key(self, path):
        if isinstance(path, SymStr):
            path = path.concrete()
        return os.path.abspath(os.fspath(path))

    def open(self, path, mode="r", *a, **k):
        if "b" not in mode:
            raise Unsupported("text mode file")
        key = self.key(path)
        if "x" in mode:
            if key in self.files:
                raise FileExistsError(17, "File exists", path)
            self.files[key] = b""
        elif "w" in mode:
            self.files[key] = b""
        elif "r" in mode or "a" in mode:
            if key not in self.files:
                if "a" in mode:
                    self.files[key] = b""
                else:
                    raise FileNotFoundError(2, "No such file or directory", path)
        return VFile(self, key, mode)


class VFile(SxBytesIO):
    """A binary file of the virtual file system."""

    def __init__(self, fs, key, mode):
        super().__init__(b"")
        self._fs, self._key, self._mode = fs, key, mode
        self.name = key
        self.mode = mode
        if "a" in mode:
            self._pos = blen(fs.files[key])

    @property
    def _v(self):
        return self._fs.files[self._key] if getattr(self, "_fs", None) is not None else b""

    @_v.setter
    def _v(self, val):
        if getattr(self, "_fs", None) is not None:
            self._fs.files[self._key] = val

    _fs = None

    def read(self, n=-1):
        self._chk()
        if "r" not in self._mode and "+" not in self._mode:
            import io
            raise io.UnsupportedOperation("read")
        if not isinstance(self._v, (bytes, SymBytes)):
            raise Unsupported("raw read of an archive")
        return super().read(n)

    def write(self, data):
        self._chk()
        if self._mode.startswith("r") and "+" not in self._mode:
            import io
            raise io.UnsupportedOperation("write")
        return super().write(data)

    def getvalue(self):
        raise AttributeError("getvalue")


# ------------------------------------------------------------------------------------------- tar
class TarInfo:
    def __init__(self, name=""):
        self.name = name
        self.size = 0
        self.mtime = 0
        self.mode = 0o644
        self.type = tarfile.REGTYPE
        self.linkname = ""
        self.uid = self.gid = 0
        self.uname = self.gname = ""
        self.pax_headers = {}

    def isfile(self): return self.type in tarfile.REGULAR_TYPES
    isreg = isfile
    def isdir(self): return self.type == tarfile.DIRTYPE
    def issym(self): return self.type == tarfile.SYMTYPE
    def islnk(self): return self.type == tarfile.LNKTYPE
    def ischr(self): return self.type == tarfile.CHRTYPE
    def isblk(self): return self.type == tarfile.BLKTYPE
    def isfifo(self): return self.type == tarfile.FIFOTYPE
    def isdev(self): return self.type in (tarfile.CHRTYPE, tarfile.BLKTYPE, tarfile.FIFOTYPE)


class Archive:
    def __init__(self, comp):
        self.comp = comp
        self.members = []


class TarFile:
    def __init__(self, fs, name, mode, fileobj=None):
        self.fs, self.name, self.mode = fs, name, mode
        self.closed = False
        m = mode or "r"
        for s in ("|", ":"):
            if s in m:
                op, _, comp = m.partition(s)
                op = op or "r"
                stream = s == "|"
                break
        else:
            op, comp, stream = m, "*" if m == "r" else "", False
        if op not in ("r", "w", "a", "x") or comp not in ("", "*", "gz", "bz2", "xz"):
            raise ValueError("mode %r not supported" % mode)
        self.op, self.stream = op, stream
        self.pos = 0
        if fileobj is not None:
            raise Unsupported("tarfile.open(fileobj=)")
        key = fs.key(name)
        if op == "r":
            if key not in fs.files:
                raise FileNotFoundError(2, "No such file or directory", name)
            a = fs.files[key]
            if not isinstance(a, Archive):
                raise tarfile.ReadError("not an archive")
            if comp != "*" and comp != a.comp:
                raise tarfile.ReadError("not a %s file" % comp)
            self.arch = a
        else:
            if op == "x" and key in fs.files:
                raise FileExistsError(17, "File exists", name)
            if op == "a" and isinstance(fs.files.get(key), Archive):
                self.arch = fs.files[key]
            else:
                self.arch = Archive("" if comp == "*" else comp)
            fs.files[key] = self.arch

    def _check(self, mode):
        if self.closed:
            raise OSError("TarFile is closed")
        if (mode == "r") != (self.op == "r"):
            raise OSError("bad operation for mode %r" % self.op)

    def addfile(self, tarinfo, fileobj=None):
        self._check("w")
        ti = copy.copy(tarinfo)
        data = b""
        if fileobj is not None:
            data = fileobj.read(ti.size)
            if not same(blen(data), ti.size) and not (blen(data) == ti.size):
                raise OSError("unexpected end of data")
        elif ti.isfile() and not same(ti.size, 0) and not (ti.size == 0):
            raise tarfile.ReadError("no data for the member")
        if isinstance(ti.name, str):
            ti.name = ti.name.rstrip("/") if ti.isdir() else ti.name
        self.arch.members.append((ti, data))

    def next(self):
        self._check("r")
        if self.pos >= len(self.arch.members):
            return None
        ti = self.arch.members[self.pos][0]
        self.pos += 1
        return ti

    def __iter__(self):
        while True:
            ti = self.next()
            if ti is None:
                return
            yield ti

    def getmembers(self):
        self._check("r")
        self.pos = len(self.arch.members)
        return [m[0] for m in self.arch.members]

    def getnames(self):
        return [m.name for m in self.getmembers()]

    def extractfile(self, member):
        self._check("r")
        for i, (ti, data) in enumerate(self.arch.members):
            if ti is member or (isinstance(member, str) and ti.name == member):
                if not ti.isfile():
                    return None
                if self.stream and self.pos > i + 1:
                    raise tarfile.StreamError("seeking backwards is not allowed")
                return SxBytesIO(data)
        raise KeyError("filename not found")

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# ---------------------------------------------------------------------------------------- pickle
class Pickle:
    def __init__(self):
        self.memo = None

    def dumps(self, obj, protocol=None, **k):
        t = Tok("pickle", copy.deepcopy(obj), ctx().fresh("picklelen", 10, 1 << 30))
        return SymBytes.make([View(t, 0, t.length)])

    def loads(self, data, **k):
        if isinstance(data, SymBytes) and len(data.pieces) == 1:
            p = data.pieces[0]
            if isinstance(p, View) and p.base.kind == "pickle" and p.full():
                return copy.deepcopy(p.base.payload)
        raise pickle.UnpicklingError("invalid data")

    def dump(self, obj, f, protocol=None, **k):
        f.write(self.dumps(obj))

    def load(self, f, **k):
        d = f.read()
        if isinstance(d, bytes) and not d:
            raise EOFError("Ran out of input")
        return self.loads(d)


def install(world, out, resets, module):
    fs = FS()
    world.fs = fs
    resets.append(fs.reset)
    out["__open__"] = fs.open
    attrs = {n: getattr(tarfile, n) for n in dir(tarfile) if not n.startswith("_")}
    attrs.update(open=lambda name=None, mode="r", fileobj=None, **k: TarFile(fs, name, mode, fileobj),
                 TarInfo=TarInfo, TarFile=TarFile)
    out["tarfile"] = module("tarfile", **attrs)
    p = Pickle()
    out["pickle"] = module("pickle", dumps=p.dumps, loads=p.loads, dump=p.dump, load=p.load,
                           HIGHEST_PROTOCOL=pickle.HIGHEST_PROTOCOL, DEFAULT_PROTOCOL=pickle.DEFAULT_PROTOCOL,
                           PickleError=pickle.PickleError, UnpicklingError=pickle.UnpicklingError,
                           PicklingError=pickle.PicklingError)

    class OSPath:
        def __getattr__(self, n):
            return getattr(os.path, n)

        def exists(self, p): return fs.key(p) in fs.files or os.path.isdir(p)
        def isdir(self, p): return any(k.startswith(fs.key(p).rstrip("/") + "/") for k in fs.files) or os.path.isdir(p)
        def isfile(self, p): return fs.key(p) in fs.files

    class DirEntry:
        def __init__(self, d, name):
            self.name, self.path = name, os.path.join(d, name)

        def is_file(self): return fs.key(self.path) in fs.files
        def is_dir(self): return not self.is_file()
        def __fspath__(self): return self.path

    class Scan(list):
        def __enter__(self): return self
        def __exit__(self, *a): pass
        def close(self): pass

    class OSMod:
        path = OSPath()

        def listdir(self, p="."): return fs.entries(p)
        def scandir(self, p="."): return Scan(DirEntry(p, n) for n in fs.entries(p))

        def __getattr__(self, n):
            if n in ("remove", "unlink", "rename", "replace", "rmdir", "mkdir", "makedirs",
                     "open", "system", "kill", "truncate", "fdopen"):
                raise Unsupported("os.%s" % n)
            return getattr(os, n)
    osm = OSMod()
    out["os"] = osm
    out["os.path"] = osm.path
