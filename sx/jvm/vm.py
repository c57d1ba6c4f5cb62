"""A symbolic Java virtual machine: loads class files, translates their methods on first use and runs them."""
import os
from .. import core
from ..core import SymInt, SymBool, Sym, SymFloat, Unsupported, And
from ..seq import SymStr, SxByteArray, SymBytes, sx_eq, zeros, zero_view
from .classfile import ClassFile, split_desc
from .translate import Translator

JDK_PREFIX = ("java/", "javax/", "jdk/", "sun/")
DEFAULT = {"J": 0, "D": 0.0, "F": 0.0, "I": 0, "Z": 0, "B": 0, "S": 0, "C": 0}


class JThrow(Exception):
    def __init__(self, obj):
        self.obj = obj


class Fallback(Exception):
    pass


class JObj:
    """Base of all Python classes generated for Java classes"""
    __slots__ = ("__dict__",)
    vt = None
    jc = None


class JArr:
    __slots__ = ("desc", "a")

    def __init__(self, desc, a):
        self.desc, self.a = desc, a


class JLambda:
    """a lambda: `m` is its method, `fn` what it does"""
    __slots__ = ("iface", "m", "fn", "vt")

    def __init__(self, iface, m, fn, vt):
        self.iface, self.m, self.fn, self.vt = iface, m, fn, vt


class Mirror:
    """java.lang.Class"""
    __slots__ = ("name", "vt")

    def __init__(self, name, vt):
        self.name, self.vt = name, vt


class VT(dict):
    """virtual methods of a class by name+descriptor"""
    def __init__(self, vm, jc):
        self.vm, self.jc = vm, jc

    def __missing__(self, k):
        f = self.vm.find_virtual(self.jc, k)
        self[k] = f
        return f


class LambdaVT(dict):
    def __init__(self, vm, iface, m):
        self.vm, self.iface, self.m = vm, iface, m

    def __missing__(self, k):
        f = self.vm.lambda_method(self.iface, self.m, k)
        self[k] = f
        return f


class Statics:
    pass


class JClass:
    def __init__(self, vm, cf):
        self.vm, self.cf, self.name = vm, cf, cf.name
        self.sup = vm.cls(cf.super) if cf.super else None
        self.jdk = cf.name.startswith(JDK_PREFIX)
        # the class library is unpacked in part: marker interfaces of other packages are left out
        self.ifaces = [vm.cls(i) for i in cf.interfaces if not self.jdk or vm.find(i)]
        self.supers = {cf.name}
        for s in ([self.sup] if self.sup else []) + self.ifaces:
            self.supers |= s.supers
        self.abstract = bool(cf.flags & 0x600)
        self.interface = bool(cf.flags & 0x200)
        self.statics = Statics()
        self.state = 0
        self.vt = VT(vm, self)
        d = {"vt": self.vt, "jc": self}
        self.attrs = dict(self.sup.attrs) if self.sup else {}
        for n, ds, fl, const in cf.fields:
            if not fl & 8:
                at = "f_" + n.replace("$", "_S_")
                if n in self.attrs:
                    at += "_%d" % len(vm.classes)
                self.attrs[n] = at
                d[at] = DEFAULT.get(ds)
        self.py = type(cf.name.replace("/", "."), (self.sup.py if self.sup else JObj,), d)
        self.reset()

    def reset(self):
        for n, ds, fl, const in self.cf.fields:
            if fl & 8:
                setattr(self.statics, self.vm.static_attr(n), DEFAULT.get(ds) if const is None else const)


class VM:
    def __init__(self, paths):
        self.paths = paths
        self.classes = {}
        self.mirrors = {}
        self.natives = {}
        self.resets = []
        self.inited = []
        self.nid = 0
        self.native_classes = {}
        self.JX = (JThrow, AttributeError, ZeroDivisionError)
        self.open_types = {"java/lang/Object", "java/lang/CharSequence", "java/lang/String", "java/lang/Comparable", "java/lang/Class",
                           "java/io/Serializable", "java/lang/Iterable"}
        self.sinks = []
        self.helpers = self.make_helpers()
        from . import natives
        natives.install(self)

    # ------------------------------------------------------------------------------------------------ classes
    def find(self, name):
        for p in self.paths:
            f = os.path.join(p, name + ".class")
            if os.path.exists(f):
                return f
        return None

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            f = self.find(name)
            if f is None:
                raise Unsupported("class %s" % name)
            with open(f, "rb") as o:
                cf = ClassFile(o.read())
            c = JClass(self, cf)
            self.classes[name] = c
        return c

    def init(self, c):
        if c.state:
            return
        c.state = 1
        if c.sup is not None:
            self.init(c.sup)
        m = c.cf.methods.get("<clinit>()V")
        if m is not None:
            try:
                f = self.natives.get((c.name, "<clinit>"))
                if f is not None:
                    f()
                else:
                    self.compiled(m)()
            finally:
                # in the order of completion: translated code expects the classes it names to be ready
                if not c.jdk:
                    self.inited.append(c)

    def reset(self):
        """static state of the classes under test as it was at the start"""
        cs, self.inited = self.inited, []
        for c in cs:
            c.reset()
            c.state = 0
        self.nid = 0
        self.hashes = None
        for f in self.resets:
            f()
        for c in cs:
            self.init(c)

    def mirror(self, name):
        if name not in self.mirrors:
            self.mirrors[name] = Mirror(name, self.cls("java/lang/Class").vt)
        return self.mirrors[name]

    @staticmethod
    def static_attr(n):
        return "f_" + n.replace("$", "_S_")

    def field_attr(self, c, n):
        k = self.cls(c)
        if n not in k.attrs:
            raise Unsupported("field %s.%s" % (c, n))
        # the declaration seen from class c
        return k.attrs[n]

    # ------------------------------------------------------------------------------------------------ methods
    def compiled(self, m):
        if m.fn is None:
            n = self.natives.get((m.cls.name, m.key)) or self.natives.get((m.cls.name, m.name))
            if n is not None:
                m.fn = n
            elif m.code is None:
                raise Unsupported("%s method %s.%s%s" % ("native" if m.flags & 0x100 else "abstract", m.cls.name, m.name, m.desc))
            else:
                m.fn = Translator(self, m).run()
                if not m.cls.name.startswith(JDK_PREFIX):
                    self.sinks.append("%s.%s" % (m.cls.name.replace("/", "."), m.name))
        return m.fn

    def find_method(self, c, key):
        """method seen from class c: itself, superclasses, then default methods"""
        k = c
        while k is not None:
            m = k.cf.methods.get(key)
            if m is not None:
                return m
            k = k.sup
        best = None
        for i in self.all_ifaces(c):
            m = i.cf.methods.get(key)
            if m is not None and not m.flags & 0x8 and not m.flags & 0x400:
                if best is None or best.cls.name in i.supers:
                    best = m
        if best is not None:
            return best
        if c.interface:
            return self.cls("java/lang/Object").cf.methods.get(key)
        return None

    def all_ifaces(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x.interface and x not in out:
                out.append(x)
            todo += x.ifaces
            if x.sup is not None:
                todo.append(x.sup)
        return out

    def find_virtual(self, c, key):
        k = c
        while k is not None:
            n = self.natives.get((k.name, key)) or self.natives.get((k.name, key[:key.index("(")]))
            if n is not None:
                return n
            m = k.cf.methods.get(key)
            if m is not None:
                return self.compiled(m)
            k = k.sup
        m = self.find_method(c, key)
        if m is None:
            raise Unsupported("method %s.%s" % (c.name, key))
        n = self.natives.get((m.cls.name, m.key))
        return n or self.compiled(m)

    def lambda_method(self, iface, m, key):
        name = key[:key.index("(")]
        if name == m:
            return lambda self, *a: self.fn(*a)
        f = self.find_method(self.cls(iface), key)
        if f is None or f.flags & 0x400 and f.cls.name != "java/lang/Object":
            return lambda self, *a: self.fn(*a)
        return self.compiled(f)

    def lazy(self, ns, k, c, n, d, static):
        """a call to a static method, constructor, private or super method, linked on first use"""
        def thunk(*args):
            if c.startswith("["):
                raise Unsupported("call on array")
            f = self.natives.get((c, n + d)) or self.natives.get((c, n))
            if f is None:
                jc = self.cls(c)
                if static:
                    self.init(jc)
                m = self.find_method(jc, n + d)
                if m is None and static:
                    for i in self.all_ifaces(jc):
                        m = m or i.cf.methods.get(n + d)
                if m is None:
                    raise Unsupported("method %s.%s%s" % (c, n, d))
                f = self.compiled(m)
            ns[k] = f
            return f(*args)
        return thunk

    def lazy_static(self, ns, k, c, n):
        def thunk():
            jc = self.cls(c)
            todo = [jc]
            while todo:
                x = todo.pop(0)
                if any(f[0] == n and f[2] & 8 for f in x.cf.fields):
                    break
                todo = todo + ([x.sup] if x.sup else []) + x.ifaces
            else:
                raise Unsupported("static %s.%s" % (c, n))
            self.init(x)
            st = x.statics
            ns[k] = lambda: st
            return st
        return thunk

    def lazy_new(self, ns, k, c):
        def thunk():
            f = self.native_classes.get(c)
            if f is None:
                jc = self.cls(c)
                self.init(jc)
                f = jc.py
            ns[k] = f
            return f()
        return thunk

    # ------------------------------------------------------------------------------------------------ values
    def vt_of(self, o):
        if isinstance(o, (JObj, JLambda, Mirror)):
            return o.vt
        if isinstance(o, (str, SymStr)):
            return self.cls("java/lang/String").vt
        if o is None:
            raise AttributeError("'NoneType' object has no attribute 'vt'")
        if isinstance(o, JArr):
            return self.array_vt
        vt = getattr(o, "vt", None)
        if vt is not None:
            return vt
        raise Unsupported("receiver %r" % type(o))

    def class_name(self, o):
        if isinstance(o, (str, SymStr)):
            return "java/lang/String"
        if isinstance(o, JArr):
            return o.desc
        if isinstance(o, Mirror):
            return "java/lang/Class"
        if isinstance(o, JLambda):
            return o.iface
        return o.jc.name

    def instof(self, o, name):
        if o is None:
            return False
        if name == "java/lang/Object":
            return True
        if isinstance(o, (str, SymStr)):
            return name in ("java/lang/String", "java/lang/CharSequence", "java/lang/Comparable", "java/io/Serializable")
        if isinstance(o, JArr):
            if o.desc == name:
                return True
            if name.startswith("["):
                e, t = o.desc[1:], name[1:]
                if e[0] == "L" and t[0] == "L":
                    return t == "Ljava/lang/Object;" or t[1:-1] in self.cls(e[1:-1]).supers
                return e[0] in "L[" and t == "Ljava/lang/Object;"
            return name in ("java/lang/Cloneable", "java/io/Serializable")
        if isinstance(o, JLambda):
            return name in self.cls(o.iface).supers or name in getattr(o.vt, "markers", ())
        if isinstance(o, Mirror):
            return name == "java/lang/Class"
        return name in o.jc.supers

    def new(self, c, desc="()V", *args):
        jc = self.cls(c)
        self.init(jc)
        o = jc.py()
        self.invoke(c, "<init>" + desc, o, *args)
        return o

    def invoke(self, c, key, *args):
        n = self.natives.get((c, key)) or self.natives.get((c, key[:key.index("(")]))
        if n is not None:
            return n(*args)
        jc = self.cls(c)
        self.init(jc)
        m = self.find_method(jc, key)
        if m is None:
            raise Unsupported("method %s.%s" % (c, key))
        return self.compiled(m)(*args)

    def exc(self, name, msg=None):
        if msg is None:
            return JThrow(self.new(name))
        return JThrow(self.new(name, "(Ljava/lang/String;)V", msg))

    def java_exception(self, ex):
        """the Java exception a Python one stands for; re-raised when it stands for none"""
        if isinstance(ex, JThrow):
            return ex.obj
        if isinstance(ex, AttributeError) and "'NoneType' object has no attribute" in str(ex):
            return self.new("java/lang/NullPointerException")
        if isinstance(ex, ZeroDivisionError):
            return self.new("java/lang/ArithmeticException", "(Ljava/lang/String;)V", "/ by zero")
        raise ex

    def catch(self, handlers, ex):
        o = self.java_exception(ex)
        for name, b in handlers or ():
            if name is None or name in o.jc.supers:
                return b, o
        raise ex

    def ident(self, o):
        i = o.__dict__.get("ident") if isinstance(o, JObj) else None
        if i is None:
            self.nid += 1
            i = 1000 + self.nid
            if isinstance(o, JObj):
                o.ident = i
        return i

    # ------------------------------------------------------------------------------------------------ invokedynamic
    def handle(self, h):
        """a Python function for a method handle"""
        _, kind, c, n, d, itf = h
        if kind == 6:
            ns = {}
            ns["k"] = self.lazy(ns, "k", c, n, d, True)
            return lambda *a: ns["k"](*a)
        if kind in (5, 9):
            key = n + d
            return lambda o, *a: self.vt_of(o)[key](o, *a)
        if kind == 7:
            ns = {}
            ns["k"] = self.lazy(ns, "k", c, n, d, False)
            return lambda *a: ns["k"](*a)
        if kind == 8:
            ns = {}
            ns["n"] = self.lazy_new(ns, "n", c)
            ns["k"] = self.lazy(ns, "k", c, "<init>", d, False)

            def make(*a):
                o = ns["n"]()
                ns["k"](o, *a)
                return o
            return make
        raise Unsupported("method handle kind %d" % kind)

    def adapt(self, fn, from_d, to_d):
        """boxing and unboxing between the types a lambda is called with and those of its implementation"""
        fa, fr = from_d
        ta, tr = to_d
        conv = []
        for f, t in zip(fa, ta):
            conv.append(self.conv(f, t))
        rc = self.conv(tr, fr) if fr != "V" and tr != "V" else None
        if all(c is None for c in conv) and rc is None:
            return fn

        def g(*a):
            r = fn(*[c(x) if c else x for c, x in zip(conv, a)])
            return rc(r) if rc else r
        return g

    BOX = {"I": "java/lang/Integer", "J": "java/lang/Long", "Z": "java/lang/Boolean", "D": "java/lang/Double",
           "B": "java/lang/Byte", "C": "java/lang/Character", "S": "java/lang/Short", "F": "java/lang/Float"}
    UNBOX = {"I": "intValue()I", "J": "longValue()J", "Z": "booleanValue()Z", "D": "doubleValue()D",
             "B": "byteValue()B", "C": "charValue()C", "S": "shortValue()S", "F": "floatValue()F"}

    def conv(self, f, t):
        pf, pt = f in self.BOX, t in self.BOX
        if pf == pt:
            if f != t and pf and (f, t) in (("I", "D"), ("J", "D"), ("I", "F")):
                return self.helpers["i2d"]
            return None
        if pf:
            return lambda x: self.box(f, x)
        u = self.UNBOX[t]
        return lambda x: x.vt[u](x)

    def box(self, d, x):
        c = self.BOX[d]
        return self.invoke(c, "valueOf(%s)L%s;" % (d, c), x)

    def indy(self, bsm, sargs, n, d, where):
        args, ret = split_desc(d)
        if bsm in ("java/lang/invoke/LambdaMetafactory.metafactory", "java/lang/invoke/LambdaMetafactory.altMetafactory"):
            iface = ret[1:-1]
            sam, impl, inst = sargs[0], sargs[1], sargs[2]
            fn = self.handle(impl)
            sa, sr = split_desc(sam[1])
            ia, ir = split_desc(impl[4])
            if impl[1] in (5, 7, 9):
                ia = ["L" + impl[2] + ";"] + ia
            if impl[1] == 8:
                ir = "L" + impl[2] + ";"
            ia = ia[len(args):]
            vt = LambdaVT(self, iface, n)
            if len(sargs) > 3 and sargs[3] & 1:
                vt.markers = ("java/io/Serializable",)
            adapted = {}
            na, nr = split_desc(inst[1])
            # instantiated types decide what a primitive is boxed to
            fa = [x if x in self.BOX else y for x, y in zip(sa, na)]
            fr = sr if sr in self.BOX or sr == "V" else nr

            def make(*cap):
                if cap:
                    f = lambda *a: fn(*cap, *a)
                else:
                    f = fn
                return JLambda(iface, n, self.adapt(f, (fa, fr), (ia, ir)), vt)
            return make
        if bsm == "java/lang/invoke/StringConcatFactory.makeConcatWithConstants":
            recipe, consts = sargs[0], sargs[1:]

            def concat(*a):
                out = ""
                i = j = 0
                for ch in recipe:
                    if ch == "\x01":
                        out = out + self.text(a[i], args[i])
                        i += 1
                    elif ch == "\x02":
                        out = out + str(consts[j])
                        j += 1
                    else:
                        out = out + ch
                return out
            return concat
        if bsm == "java/lang/runtime/ObjectMethods.bootstrap":
            raise Unsupported("record methods")
        raise Unsupported("invokedynamic %s" % bsm)

    def text(self, x, d="Ljava/lang/Object;"):
        """String.valueOf"""
        if d in ("I", "J", "S", "B"):
            return str(x) if type(x) is int else self.sym_text(x)
        if d == "Z":
            return "true" if x else "false"
        if d == "C":
            return self.helpers["chr16"](x)
        if d in ("D", "F"):
            return double_text(x)
        if x is None:
            return "null"
        if isinstance(x, (str, SymStr)):
            return x
        return self.vt_of(x)["toString()Ljava/lang/String;"](x)

    @staticmethod
    def sym_text(x):
        from ..rt import sx_str
        return sx_str(x)

    # ------------------------------------------------------------------------------------------------ helpers
    def make_helpers(self):
        vm = self
        C32, M31 = 1 << 32, 1 << 31
        C64, M63 = 1 << 64, 1 << 63

        def w32(x):
            if type(x) is int:
                return x if -M31 <= x < M31 else ((x + M31) & (C32 - 1)) - M31
            if type(x) is bool:
                return int(x)
            if And(x >= -M31, x < M31):
                return x
            return (x + M31) % C32 - M31

        def w64(x):
            if type(x) is int:
                return x if -M63 <= x < M63 else ((x + M63) & (C64 - 1)) - M63
            if type(x) is bool:
                return int(x)
            if And(x >= -M63, x < M63):
                return x
            return (x + M63) % C64 - M63

        def conc(x):
            return core.CTX.concretize(x) if isinstance(x, Sym) else x

        def index(a, i):
            """checked index as a concrete number"""
            n = len(a) if isinstance(a, list) else blen(a)
            if not And(i >= 0, i < n):
                raise vm.exc("java/lang/ArrayIndexOutOfBoundsException", "Index out of bounds")
            return i

        def blen(a):
            return len(a) if isinstance(a, bytearray) else a.sx_len()

        def aload(r, i):
            a = r.a
            if type(i) is int:
                if 0 <= i < len(a):
                    return a[i]
                index(a, i)
            index(a, i)
            return a[conc(i)]

        def bload(r, i):
            a = r.a
            if isinstance(a, list):
                return aload(r, i)
            v = a[index(a, i)]
            if type(v) is int:
                return v - 256 if v > 127 and r.desc == "[B" else v
            return v - 256 if r.desc == "[B" and v > 127 else v

        def store(r, i, v):
            a = r.a
            if type(i) is int and 0 <= i < len(a):
                a[i] = v
            else:
                index(a, i)
                a[conc(i)] = v

        def astore(r, i, v):
            store(r, i, v)

        def bstore(r, i, v):
            a = r.a
            if isinstance(a, list):
                return store(r, i, i2b(v))
            v = v & 255
            if isinstance(a, bytearray):
                if type(v) is int and type(i) is int:
                    a[index(a, i)] = v
                    return
                r.a = a = SxByteArray(bytes(a))
            a[index(a, i)] = v

        def cstore(r, i, v):
            store(r, i, i2c(v))

        def sstore(r, i, v):
            store(r, i, i2s(v))

        def alen(r):
            a = r.a
            return a.sx_len() if isinstance(a, SxByteArray) else len(a)

        def newarr(d, n):
            if n < 0:
                raise vm.exc("java/lang/NegativeArraySizeException")
            if d == "[B":
                if type(n) is int and n < 64:
                    return JArr(d, bytearray(n))
                return JArr(d, SxByteArray(SymBytes((zero_view(n),)) if type(n) is int else zeros(n)))
            return JArr(d, [DEFAULT.get(d[1:])] * conc(n))

        def multi(d, dims):
            r = newarr(d, dims[0])
            if len(dims) > 1:
                r.a = [multi(d[1:], dims[1:]) for _ in r.a]
            return r

        def shl32(x, n):
            return w32(x << (conc(n) & 31))

        def shl64(x, n):
            return w64(x << (conc(n) & 63))

        def shr32(x, n):
            return x >> (conc(n) & 31)

        def shr64(x, n):
            return x >> (conc(n) & 63)

        def ushr32(x, n):
            n = conc(n) & 31
            return w32((x if x >= 0 else x + C32) >> n)

        def ushr64(x, n):
            n = conc(n) & 63
            return w64((x if x >= 0 else x + C64) >> n)

        def mask(m):
            return m >= 0 and m & (m + 1) == 0 or m < 0 and -m & (-m - 1) == 0

        def band(x, y):
            if isinstance(x, Sym) and isinstance(y, Sym):
                y = conc(y)
            if isinstance(y, Sym):
                x, y = y, x
            if isinstance(x, Sym) and not mask(y):
                x = conc(x)
            return x & y

        def small(x):
            """0 or 1: the operands of non-short-circuit boolean operators"""
            return And(x >= 0, x <= 1)

        def bor(x, y):
            if isinstance(x, Sym) or isinstance(y, Sym):
                if type(x) is int and x == 0:
                    return y
                if type(y) is int and y == 0:
                    return x
                # disjoint bits, as when bytes are put together
                for p, q in ((x, y), (y, x)):
                    if isinstance(p, Sym) and type(q) is int:
                        continue
                    k = vm.lowbits(p)
                    if k and vm.below(q, k):
                        return p + q
            return conc(x) | conc(y)

        def bxor(x, y):
            if type(y) is int and y == -1:
                return -x - 1
            if type(x) is int and x == -1:
                return -y - 1
            return conc(x) ^ conc(y)

        def idiv(x, y):
            if y == 0:
                raise ZeroDivisionError("/ by zero")
            if type(x) is int and type(y) is int:
                q = abs(x) // abs(y)
                return q if (x >= 0) == (y >= 0) else -q
            y = conc(y)
            if y < 0:
                x, y = -x, -y
            return x // y if x >= 0 else -((-x) // y)

        def irem(x, y):
            y = conc(y) if not type(y) is int else y
            return x - idiv(x, y) * y

        def lcmp(x, y):
            return -1 if x < y else 0 if x == y else 1

        def dcmp(x, y, nan):
            if x != x or y != y:
                return nan
            return lcmp(x, y)

        def fcmp(x, y, op, nan):
            if (type(x) is float and x != x) or (type(y) is float and y != y):
                x, y = nan, 0
            return x < y if op == "<" else x <= y if op == "<=" else x > y if op == ">" else x >= y if op == ">=" else \
                x == y if op == "==" else x != y

        def fneg(x):
            return -x

        def fdiv(x, y):
            if type(y) is float and y == 0.0:
                import math
                if x != x or x == 0:
                    return math.nan
                return math.copysign(math.inf, x) * math.copysign(1.0, y)
            return x / y

        def frem(x, y):
            import math
            return math.fmod(conc(x), conc(y)) if y else math.nan

        def i2d(x):
            return float(x) if type(x) is int else x if isinstance(x, (float, SymFloat)) else SymFloat(x, 1)

        def d2f(x):
            import struct
            if isinstance(x, SymFloat):
                return x
            try:
                return struct.unpack("f", struct.pack("f", x))[0]
            except OverflowError:
                import math
                return math.copysign(math.inf, x)

        def sat(x, lo, hi):
            if isinstance(x, SymFloat):
                return x.trunc()
            if x != x:
                return 0
            return lo if x < lo else hi if x > hi else int(x)

        def d2i(x):
            return sat(x, -M31, M31 - 1)

        def d2l(x):
            return sat(x, -M63, M63 - 1)

        def i2b(x):
            if And(x >= -128, x < 128):
                return x
            return (x + 128) % 256 - 128

        def i2c(x):
            if And(x >= 0, x < 65536):
                return x
            return x % 65536

        def i2s(x):
            if And(x >= -32768, x < 32768):
                return x
            return (x + 32768) % 65536 - 32768

        def same(x, y):
            return x is y

        # literals are interned by the class file reader

        def throw(o):
            if o is None:
                raise AttributeError("'NoneType' object has no attribute 'throw'")
            raise JThrow(o)

        def nn(o):
            if o is None:
                raise AttributeError("'NoneType' object has no attribute 'vt'")
            return o

        def checkcast(o, name):
            if o is not None and not vm.instof(o, name):
                raise vm.exc("java/lang/ClassCastException", "%s to %s" % (vm.class_name(o), name))

        def chr16(c):
            if type(c) is int:
                return chr(c)
            from ..seq import Ch
            return SymStr.make([Ch(c)])
        out = dict(locals())
        for k in ("vm", "C32", "M31", "C64", "M63"):
            del out[k]
        out["V"] = lambda o: self.vt_of(o)
        out["instof"] = self.instof
        return out

    @staticmethod
    def lowbits(x):
        """number of low bits known to be zero"""
        if type(x) is int:
            return (x & -x).bit_length() - 1 if x else 64
        g = 64
        for _, k in x.terms:
            g = min(g, (k & -k).bit_length() - 1)
        if x.c:
            g = min(g, (x.c & -x.c).bit_length() - 1)
        return g

    @staticmethod
    def below(x, k):
        if type(x) is int:
            return 0 <= x < 1 << k
        return bool(And(x >= 0, x < (1 << k)))


def double_text(x):
    import math
    if isinstance(x, SymFloat):
        x = x.concrete()
    if x != x:
        return "NaN"
    if math.isinf(x):
        return "Infinity" if x > 0 else "-Infinity"
    a = abs(x)
    if a == 0 or 1e-3 <= a < 1e7:
        return repr(x) if "e" not in repr(x) else "%f" % x
    s = repr(x)
    if "e" not in s:
        s = "%r" % x
        m, e = s, 0
        d = len(str(int(a))) - 1
        digits = str(int(a)).rstrip("0") if x == int(x) else None
        if digits:
            return ("-" if x < 0 else "") + digits[0] + "." + (digits[1:] or "0") + "E%d" % d
    m, e = s.split("e")
    return (m if "." in m else m + ".0") + "E" + str(int(e))
