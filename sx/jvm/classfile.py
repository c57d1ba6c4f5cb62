"""Reads JVM class files."""
import struct
import sys


class Method:
    __slots__ = ("cls", "name", "desc", "flags", "code", "max_locals", "handlers", "fn")

    def __init__(self, cls, name, desc, flags):
        self.cls, self.name, self.desc, self.flags = cls, name, desc, flags
        self.code, self.max_locals, self.handlers, self.fn = None, 0, (), None

    @property
    def static(self):
        return bool(self.flags & 0x8)

    @property
    def key(self):
        return self.name + self.desc


class ClassFile:
    def __init__(self, data):
        self.d = data
        magic, minor, major, n = struct.unpack(">IHHH", data[:10])
        if magic != 0xCAFEBABE:
            raise ValueError("not a class file")
        self.pos = 10
        self.raw = [None] * n
        self.memo = {}
        i = 1
        while i < n:
            t = self.u1()
            if t == 1:
                l = self.u2()
                v = mutf8(data[self.pos:self.pos + l])
                self.pos += l
            elif t == 3:
                v = struct.unpack(">i", self.take(4))[0]
            elif t == 4:
                v = struct.unpack(">f", self.take(4))[0]
            elif t == 5:
                v = struct.unpack(">q", self.take(8))[0]
            elif t == 6:
                v = struct.unpack(">d", self.take(8))[0]
            elif t in (7, 8, 16, 19, 20):
                v = self.u2()
            elif t in (9, 10, 11, 12, 17, 18):
                v = (self.u2(), self.u2())
            elif t == 15:
                v = (self.u1(), self.u2())
            else:
                raise ValueError("constant tag %d" % t)
            self.raw[i] = (t, v)
            i += 2 if t in (5, 6) else 1
        self.flags = self.u2()
        self.name = self.cname(self.u2())
        s = self.u2()
        self.super = self.cname(s) if s else None
        self.interfaces = [self.cname(self.u2()) for _ in range(self.u2())]
        self.fields = []                     # (name, desc, flags, constant)
        for _ in range(self.u2()):
            fl, nm, ds = self.u2(), self.utf(self.u2()), self.utf(self.u2())
            const = None
            for an, ad in self.attrs():
                if an == "ConstantValue":
                    const = self.const(struct.unpack(">H", ad)[0])
            self.fields.append((nm, ds, fl, const))
        self.methods = {}
        for _ in range(self.u2()):
            fl, nm, ds = self.u2(), self.utf(self.u2()), self.utf(self.u2())
            m = Method(self, nm, ds, fl)
            for an, ad in self.attrs():
                if an == "Code":
                    _, m.max_locals, l = struct.unpack(">HHI", ad[:8])
                    m.code = ad[8:8 + l]
                    k = struct.unpack(">H", ad[8 + l:10 + l])[0]
                    m.handlers = [struct.unpack(">HHHH", ad[10 + l + 8 * j:18 + l + 8 * j]) for j in range(k)]
            self.methods[m.key] = m
        self.bootstrap = []
        for an, ad in self.attrs():
            if an == "BootstrapMethods":
                k, p = struct.unpack(">H", ad[:2])[0], 2
                for _ in range(k):
                    r, c = struct.unpack(">HH", ad[p:p + 4])
                    p += 4
                    self.bootstrap.append((r, list(struct.unpack(">%dH" % c, ad[p:p + 2 * c]))))
                    p += 2 * c
        self.d = None

    def take(self, n):
        self.pos += n
        return self.d[self.pos - n:self.pos]

    def u1(self):
        self.pos += 1
        return self.d[self.pos - 1]

    def u2(self):
        return struct.unpack(">H", self.take(2))[0]

    def u4(self):
        return struct.unpack(">I", self.take(4))[0]

    def attrs(self):
        out = []
        for _ in range(self.u2()):
            n = self.utf(self.u2())
            out.append((n, self.take(self.u4())))
        return out

    def utf(self, i):
        return self.raw[i][1]

    def cname(self, i):
        return self.utf(self.raw[i][1])

    def nat(self, i):
        a, b = self.raw[i][1]
        return self.utf(a), self.utf(b)

    def ref(self, i):
        """(class, name, descriptor) of a field or method reference"""
        t, (c, n) = self.raw[i]
        return (self.cname(c),) + self.nat(n)

    def const(self, i):
        """constant: number, str, ("class", name), ("mtype", desc), ("handle", kind, class, name, desc, is_interface)"""
        t, v = self.raw[i]
        if t in (3, 4, 5, 6):
            return v
        if t == 8:
            return sys.intern(self.utf(v))
        if t == 7:
            return ("class", self.utf(v))
        if t == 16:
            return ("mtype", self.utf(v))
        if t == 15:
            return ("handle", v[0]) + self.ref(v[1]) + (self.raw[v[1]][0] == 11,)
        raise ValueError("constant %d" % t)

    def indy(self, i):
        """(bootstrap class.name, static args, name, desc)"""
        t, (b, n) = self.raw[i]
        r, args = self.bootstrap[b]
        h = self.const(r)
        return h[2] + "." + h[3], [self.const(a) for a in args], self.nat(n)


def mutf8(b):
    try:
        s = b.replace(b"\xc0\x80", b"\0").decode("utf-8", "surrogatepass")
    except UnicodeDecodeError:
        s = b.decode("latin1")
    return s


def split_desc(d):
    """(argument descriptors, return descriptor)"""
    out = []
    i = 1
    while d[i] != ")":
        j = i
        while d[j] == "[":
            j += 1
        if d[j] == "L":
            j = d.index(";", j)
        out.append(d[i:j + 1])
        i = j + 1
    return out, d[i + 1:]
