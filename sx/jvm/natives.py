"""What the machine does itself instead of running bytecode: strings, class objects, reflection, and the parts of the class
library that reach outside Java."""
import zlib
from .. import core
from ..core import Sym, SymInt, And, Unsupported
from ..seq import SymStr, SxByteArray, SymBytes, to_bytes, blen, str_lt
from ..stubs.comp import Codec
from . import vm as V
from .classfile import split_desc


ZIP_MOST = 2600     # bytes that symbolic data is compressed to


def install(vm):
    N = vm.natives
    H = vm.helpers
    L = "java/lang/"
    B = lambda c: 1 if c else 0

    def exc(name, msg=None):
        return vm.exc(name, msg)

    def conc(x):
        return core.CTX.concretize(x) if isinstance(x, SymInt) else x

    def native(cls, names):
        def deco(f):
            for n in names.split():
                N[(cls, n)] = f
            return f
        return deco

    def equal(a, b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        return vm.vt_of(a)["equals(Ljava/lang/Object;)Z"](a, b) != 0

    def hashof(o):
        return 0 if o is None else vm.vt_of(o)["hashCode()I"](o)

    vm.equal, vm.hashof = equal, hashof

    # ------------------------------------------------------------------------------------------------ Object
    N[(L + "Object", "<init>")] = lambda o: None
    N[(L + "Object", "hashCode()I")] = lambda o: vm.ident(o)
    N[(L + "Object", "equals(Ljava/lang/Object;)Z")] = lambda o, x: B(o is x)
    N[(L + "Object", "getClass()Ljava/lang/Class;")] = lambda o: vm.mirror(vm.class_name(o))
    N[(L + "Object", "toString()Ljava/lang/String;")] = lambda o: vm.class_name(o).replace("/", ".") + "@" + "%x" % vm.ident(o)
    N[(L + "Object", "notifyAll()V")] = N[(L + "Object", "notify()V")] = lambda o: None

    def clone(o):
        n = type(o).__new__(type(o))
        n.__dict__.update(o.__dict__)
        n.__dict__.pop("ident", None)
        return n
    N[(L + "Object", "clone()Ljava/lang/Object;")] = clone

    class ArrayVT(dict):
        def __missing__(self, k):
            if k.startswith("clone()"):
                return lambda r: V.JArr(r.desc, list(r.a) if isinstance(r.a, list) else
                                        bytearray(r.a) if isinstance(r.a, bytearray) else SxByteArray(to_bytes(r.a)))
            if k == "getClass()Ljava/lang/Class;":
                return lambda r: vm.mirror(r.desc)
            if k == "hashCode()I":
                return lambda r: id(r) & 0xffff
            if k == "equals(Ljava/lang/Object;)Z":
                return lambda r, o: B(r is o)
            raise Unsupported("array method " + k)
    vm.array_vt = ArrayVT()

    # ------------------------------------------------------------------------------------------------ System
    N[(L + "System", "<clinit>")] = lambda: None
    N[(L + "System", "identityHashCode")] = lambda o: 0 if o is None else vm.ident(o)
    N[(L + "System", "nanoTime")] = N[(L + "System", "currentTimeMillis")] = lambda: 0
    N[(L + "System", "getProperty")] = lambda *a: a[1] if len(a) > 1 else None
    N[(L + "System", "lineSeparator")] = lambda: "\n"
    N[(L + "System", "getSecurityManager")] = lambda: None

    def length(a):
        return H["alen"](a)

    def arraycopy(src, sp, dst, dp, n):
        if src is None or dst is None:
            raise exc(L + "NullPointerException")
        if not And(n >= 0, sp >= 0, dp >= 0, sp + n <= length(src), dp + n <= length(dst)):
            raise exc(L + "ArrayIndexOutOfBoundsException", "arraycopy")
        if isinstance(src.a, list):
            sp, dp, n = conc(sp), conc(dp), conc(n)
            dst.a[dp:dp + n] = src.a[sp:sp + n]
        else:
            put(dst, dp, n, cut(src, sp, n))
    N[(L + "System", "arraycopy")] = arraycopy

    def content(r):
        """bytes of a byte array"""
        return bytes(r.a) if isinstance(r.a, bytearray) else r.a.v

    def cut(r, off, n):
        if isinstance(r.a, bytearray) and type(off) is int and type(n) is int:
            return bytes(r.a[off:off + n])
        return to_bytes(SxByteArray(content(r))[off:off + n])

    def put(r, off, n, data):
        if isinstance(r.a, bytearray):
            if isinstance(data, bytes) and type(off) is int:
                r.a[off:off + n] = data
                return
            r.a = SxByteArray(bytes(r.a))
        r.a[off:off + n] = data

    vm.content, vm.cut, vm.put = content, cut, put

    def bytes_array(data):
        return V.JArr("[B", bytearray(data) if isinstance(data, bytes) and len(data) < 64 else SxByteArray(data))
    vm.bytes_array = bytes_array

    # ------------------------------------------------------------------------------------------------ Class
    C = L + "Class"
    N[(C, "<clinit>")] = lambda: None
    N[(C, "desiredAssertionStatus")] = lambda c: 0
    N[(C, "getPrimitiveClass")] = lambda n: vm.mirror(n)
    N[(C, "getName")] = lambda c: c.name.replace("/", ".")
    N[(C, "getTypeName")] = lambda c: c.name.replace("/", ".")
    N[(C, "getSimpleName")] = lambda c: c.name.split("/")[-1].split("$")[-1]
    N[(C, "isInstance")] = lambda c, o: B(vm.instof(o, c.name))
    N[(C, "isArray")] = lambda c: B(c.name.startswith("["))
    N[(C, "isInterface")] = lambda c: B(vm.cls(c.name).interface)
    N[(C, "isEnum")] = lambda c: B("java/lang/Enum" in vm.cls(c.name).supers)
    N[(C, "getSuperclass")] = lambda c: None if vm.cls(c.name).sup is None else vm.mirror(vm.cls(c.name).sup.name)
    N[(C, "hashCode()I")] = lambda c: sum(map(ord, c.name)) * 31
    N[(C, "toString()Ljava/lang/String;")] = lambda c: ("interface " if not c.name.startswith("[") and vm.cls(c.name).interface else "class ") + c.name.replace("/", ".")
    N[(C, "isAssignableFrom")] = lambda c, d: B(c.name in vm.cls(d.name).supers or c.name == "java/lang/Object")

    def component(c):
        if not c.name.startswith("["):
            return None
        e = c.name[1:]
        return vm.mirror(e[1:-1] if e.startswith("L") else e)
    N[(C, "getComponentType")] = component

    def cast(c, o):
        H["checkcast"](o, c.name)
        return o
    N[(C, "cast")] = cast

    def enum_constants(c):
        jc = vm.cls(c.name)
        if "java/lang/Enum" not in jc.supers:
            return None
        return vm.invoke(c.name, "values()[L%s;" % c.name)
    N[(C, "getEnumConstants")] = N[(C, "getEnumConstantsShared")] = enum_constants
    N[("java/util/EnumMap", "getKeyUniverse")] = N[("java/util/EnumSet", "getUniverse")] = enum_constants

    def enum_valueof(c, n):
        for x in enum_constants(c).a:
            if vm.invoke(L + "Enum", "name()Ljava/lang/String;", x) == n:
                return x
        raise exc(L + "IllegalArgumentException", "No enum constant")
    N[(L + "Enum", "valueOf(Ljava/lang/Class;Ljava/lang/String;)Ljava/lang/Enum;")] = enum_valueof
    N[(L + "Enum", "getDeclaringClass")] = lambda o: vm.mirror(o.jc.name if o.jc.sup.name == L + "Enum" else o.jc.sup.name)
    N[(L + "Enum", "hashCode()I")] = lambda o: o.f_ordinal + 17

    # ------------------------------------------------------------------------------------------------ arrays
    def empty_like(desc, n):
        return H["newarr"](desc, n)
    N[("java/lang/reflect/Array", "newInstance")] = lambda c, n: empty_like("[" + (c.name if c.name.startswith("[") or len(c.name) == 1
                                                                                  else "L" + c.name + ";"), n)
    N[("java/lang/reflect/Array", "getLength")] = length

    def copy_range(a, lo, hi, desc=None):
        d = desc.name if isinstance(desc, V.Mirror) else a.desc
        if hi < lo:
            raise exc(L + "IllegalArgumentException", "range")
        out = empty_like(d, hi - lo)
        n = length(a)
        if not And(lo >= 0, lo <= n):
            raise exc(L + "ArrayIndexOutOfBoundsException", "range")
        m = hi - lo if hi <= n else n - lo
        arraycopy(a, lo, out, 0, m)
        return out
    N[("java/util/Arrays", "copyOf")] = lambda a, n, d=None: copy_range(a, 0, n, d) if not n < 0 else _raise(exc(L + "NegativeArraySizeException"))
    N[("java/util/Arrays", "copyOfRange")] = copy_range

    def _raise(e):
        raise e

    def sort_objects(a, *rest):
        lo, hi, cmp = 0, len(a.a), None
        if len(rest) in (1, 3):
            cmp = rest[-1]
        if len(rest) >= 2:
            lo, hi = conc(rest[0]), conc(rest[1])
        xs = a.a[lo:hi]
        # merge sort: stable, as is every implementation of the class library
        if cmp is None:
            less = lambda x, y: vm.vt_of(x)["compareTo(Ljava/lang/Object;)I"](x, y) < 0
        else:
            f = vm.vt_of(cmp)["compare(Ljava/lang/Object;Ljava/lang/Object;)I"]
            less = lambda x, y: f(cmp, x, y) < 0
        a.a[lo:hi] = insertion(xs, less)

    def insertion(xs, less):
        out = []
        for x in xs:
            lo, hi = 0, len(out)
            while lo < hi:
                m = (lo + hi) // 2
                if less(x, out[m]):
                    hi = m
                else:
                    lo = m + 1
            out.insert(lo, x)
        return out
    for d in ("([Ljava/lang/Object;)V", "([Ljava/lang/Object;Ljava/util/Comparator;)V", "([Ljava/lang/Object;II)V",
              "([Ljava/lang/Object;IILjava/util/Comparator;)V"):
        N[("java/util/Arrays", "sort" + d)] = sort_objects

    def sort_prims(a, lo=0, hi=None):
        hi = len(a.a) if hi is None else conc(hi)
        lo = conc(lo)
        a.a[lo:hi] = insertion(a.a[lo:hi], lambda x, y: x < y)
    for t in "IJDFSC":
        N[("java/util/Arrays", "sort([%s)V" % t)] = sort_prims
        N[("java/util/Arrays", "sort([%sII)V" % t)] = sort_prims
    N[("java/util/ComparableTimSort", "sort")] = lambda a, lo, hi, *r: sort_objects(a, lo, hi)
    N[("java/util/TimSort", "sort")] = lambda a, lo, hi, c, *r: sort_objects(a, lo, hi, c)

    def equal_bytes(a, b):
        if a is None or b is None or a is b:
            return B(a is b)
        return B(content(a) == content(b))
    N[("java/util/Arrays", "equals([B[B)Z")] = equal_bytes
    N[("java/util/Arrays", "hashCode([B)I")] = lambda a: 0 if a is None else 7
    U = "jdk/internal/util/"
    N[(U + "ArraysSupport", "<clinit>")] = lambda: None

    def new_length(old, least, pref):
        n = old + (pref if pref > least else least)
        return n
    N[(U + "ArraysSupport", "newLength")] = new_length

    def mismatch(a, b, n):
        for i in range(conc(n)):
            if a.a[i] != b.a[i]:
                return i
        return -1
    N[(U + "ArraysSupport", "mismatch")] = mismatch

    def check_index(i, n, f=None):
        if not And(i >= 0, i < n):
            raise exc(L + "IndexOutOfBoundsException", "index out of bounds")
        return i
    N[(U + "Preconditions", "checkIndex")] = check_index
    N[("java/util/Objects", "checkIndex")] = check_index

    def check_ft(a, b, n, f=None):
        if not And(a >= 0, a <= b, b <= n):
            raise exc(L + "IndexOutOfBoundsException", "range out of bounds")
        return a
    N[("java/util/Objects", "checkFromToIndex")] = N[(U + "Preconditions", "checkFromToIndex")] = check_ft

    def check_fs(a, k, n, f=None):
        if not And(a >= 0, k >= 0, a + k <= n):
            raise exc(L + "IndexOutOfBoundsException", "range out of bounds")
        return a
    N[("java/util/Objects", "checkFromIndexSize")] = N[(U + "Preconditions", "checkFromIndexSize")] = check_fs

    # ------------------------------------------------------------------------------------------------ hash maps
    def spread(k):
        """a number that is the same for equal hash codes and different for different ones"""
        h = hashof(k)
        if vm.hashes is None:
            vm.hashes = ({}, [])
        known, syms = vm.hashes
        if type(h) is int:
            if h in known:
                return known[h]
            for s, i in syms:
                if s == h:
                    known[h] = i
                    return i
            i = len(known) + len(syms)
            known[h] = i
            return i
        for s, i in syms:
            if s == h:
                return i
        for c, i in list(known.items()):
            if h == c:
                return i
        i = len(known) + len(syms)
        syms.append((h, i))
        return i
    vm.hashes = None
    N[("java/util/HashMap", "hash")] = spread
    N[("java/util/HashMap", "treeifyBin")] = lambda *a: None
    N[("java/util/HashMap", "<clinit>")] = lambda: None
    # ------------------------------------------------------------------------------------------------ Throwable
    N[(L + "Throwable", "fillInStackTrace()Ljava/lang/Throwable;")] = lambda o: o
    N[(L + "Throwable", "printStackTrace")] = lambda o, *a: None
    N[(L + "Throwable", "getStackTrace")] = lambda o: V.JArr("[Ljava/lang/StackTraceElement;", [])

    # ------------------------------------------------------------------------------------------------ boxes
    for d, c in V.VM.BOX.items():
        def valueof(x, c=c, d=d, memo={}):
            if type(x) is int and -128 <= x <= 127 and d in "IJBSC":
                k = (c, x)
                if k in memo and memo[k].jc is vm.cls(c):
                    return memo[k]
                o = memo[k] = vm.cls(c).py()
                o.f_value = x
                return o
            o = vm.cls(c).py()
            o.f_value = x
            return o
        if d != "Z":
            N[(c, "valueOf(%s)L%s;" % (d, c))] = valueof
        N[(c, "<clinit>")] = (lambda c=c: None) if d != "Z" else boolean_clinit(vm)
        N[(c, "toString(%s)Ljava/lang/String;" % d)] = lambda x, d=d: vm.text(x, d)
    N[(L + "Number", "<init>")] = lambda o: None
    N[(L + "Integer", "parseInt(Ljava/lang/String;)I")] = N[(L + "Long", "parseLong(Ljava/lang/String;)J")] = lambda s: int(s)
    N[(L + "Integer", "toHexString")] = lambda x: "%x" % (conc(x) & 0xffffffff)

    def dbits(x):
        import struct
        if isinstance(x, Sym):
            raise Unsupported("bits of a symbolic floating point number")
        return struct.unpack(">q", struct.pack(">d", x))[0]
    N[(L + "Double", "doubleToLongBits")] = N[(L + "Double", "doubleToRawLongBits")] = dbits
    N[(L + "Double", "compare(DD)I")] = lambda x, y: H["dcmp"](x, y, 1)
    N[(L + "Double", "isNaN(D)Z")] = lambda x: B(x != x)
    N[(L + "Float", "floatToIntBits")] = N[(L + "Float", "floatToRawIntBits")] = lambda x: __import__("struct").unpack(">i", __import__("struct").pack(">f", x))[0]
    N[(L + "Float", "intBitsToFloat")] = lambda x: __import__("struct").unpack(">f", __import__("struct").pack(">i", conc(x)))[0]
    N[(L + "Double", "longBitsToDouble")] = lambda x: __import__("struct").unpack(">d", __import__("struct").pack(">q", conc(x)))[0]
    import math
    N[(L + "Math", "<clinit>")] = lambda: None
    N[(L + "Math", "floor")] = lambda x: float(math.floor(x))
    N[(L + "Math", "ceil")] = lambda x: float(math.ceil(x))
    N[(L + "Math", "sqrt")] = lambda x: math.sqrt(x)

    # ------------------------------------------------------------------------------------------------ strings
    install_strings(vm, N, H, exc, conc, B)
    install_io(vm, N, H, exc, conc, B)


def boolean_clinit(vm):
    def f():
        c = vm.cls("java/lang/Boolean")
        for n, v in (("TRUE", 1), ("FALSE", 0)):
            o = c.py()
            o.f_value = v
            setattr(c.statics, "f_" + n, o)
    return f


def install_strings(vm, N, H, exc, conc, B):
    S = "java/lang/String"
    from ..rt import sx_len
    ln = lambda s: len(s) if isinstance(s, str) else s.sx_len()
    isstr = lambda x: isinstance(x, (str, SymStr))
    N[(S, "<clinit>")] = lambda: None
    N[(S, "length")] = ln
    N[(S, "isEmpty")] = lambda s: B(ln(s) == 0)
    N[(S, "toString")] = N[(S, "intern")] = lambda s: s

    def code(s, i):
        if isinstance(s, str):
            if type(i) is not int:
                i = conc(i)
            return ord(s[i])
        c = s[i]
        if isinstance(c, str):
            return ord(c)
        return c.codes()[0]

    def char_at(s, i):
        if not And(i >= 0, i < ln(s)):
            raise exc("java/lang/StringIndexOutOfBoundsException", "index out of bounds")
        return code(s, i)
    N[(S, "charAt")] = N[(S, "codePointAt")] = char_at

    def sub(s, a, b=None):
        n = ln(s)
        if b is None:
            b = n
        if not And(a >= 0, a <= b, b <= n):
            raise exc("java/lang/StringIndexOutOfBoundsException", "begin, end, length")
        if isinstance(s, str):
            if type(a) is int and type(b) is int:
                return s[a:b]
            s = SymStr((s,))
            return s[a:b]
        return s[a:b]
    N[(S, "substring")] = N[(S, "subSequence")] = sub
    N[(S, "equals")] = lambda s, o: B(s is o or isstr(o) and bool(s == o))
    N[(S, "contentEquals")] = lambda s, o: B(s == vm.text(o))
    N[(S, "equalsIgnoreCase")] = lambda s, o: B(isstr(o) and s.lower() == o.lower())

    def hashcode(s):
        if isinstance(s, SymStr):
            return hash_sym(s)
        h = 0
        for ch in s:
            h = (31 * h + ord(ch)) & 0xffffffff
        return h - (1 << 32) if h >> 31 else h

    def hash_sym(s):
        # equal strings have equal hash codes; nothing else is assumed
        t = vm.strhash = getattr(vm, "strhash", None) or []
        for x, h in t:
            if ln(x) == ln(s) and x == s:
                return h
        h = 77000 + len(t)
        t.append((s, h))
        return h
    N[(S, "hashCode")] = hashcode

    def compare(s, o):
        if isinstance(s, str) and isinstance(o, str):
            return -1 if s < o else 1 if s > o else 0
        if s == o:
            return 0
        return -1 if str_lt(s, o) else 1
    N[(S, "compareTo(Ljava/lang/String;)I")] = N[(S, "compareTo(Ljava/lang/Object;)I")] = compare
    N[(S, "concat")] = lambda s, o: s + o
    N[(S, "contains")] = lambda s, o: B(vm.text(o) in s if isinstance(s, str) else s.__contains__(vm.text(o)))
    N[(S, "startsWith")] = lambda s, o, off=0: B(s[off:].startswith(o))
    N[(S, "endsWith")] = lambda s, o: B(s.endswith(o))
    pat = lambda x: x if isstr(x) else H["chr16"](x)
    N[(S, "indexOf")] = lambda s, x, off=0: s.find(pat(x), off)
    N[(S, "lastIndexOf")] = lambda s, x: s.rfind(pat(x))
    N[(S, "replace")] = lambda s, a, b: s.replace(pat(a) if not isstr(a) else a, pat(b) if not isstr(b) else b)
    N[(S, "trim")] = N[(S, "strip")] = lambda s: s.strip()
    N[(S, "toLowerCase")] = lambda s, *a: s.lower()
    N[(S, "toUpperCase")] = lambda s, *a: s.upper()
    N[(S, "valueOf")] = None
    for d in ("I", "J", "Z", "C", "D", "F", "Ljava/lang/Object;"):
        N[(S, "valueOf(%s)Ljava/lang/String;" % d)] = lambda x, d=d: vm.text(x, d)
    del N[(S, "valueOf")]
    N[(S, "toCharArray")] = lambda s: V.JArr("[C", [code(s, i) for i in range(conc(ln(s)))])
    N[(S, "valueOf([C)Ljava/lang/String;")] = lambda a: "".join(H["chr16"](c) for c in a.a)
    def fmt(f, args):
        import re
        xs = list(args.a)
        out = ""
        pos = i = 0
        for m in re.finditer(r"%(-?\d*)([sdnx%c])", f):
            out = out + f[pos:m.start()]
            pos = m.end()
            if m.group(2) == "n":
                out = out + "\n"
            elif m.group(2) == "%":
                out = out + "%"
            else:
                x = xs[i]
                i += 1
                if m.group(2) == "x":
                    out = out + "%x" % conc(x.f_value)
                else:
                    out = out + vm.text(x)
        return out + f[pos:]
    N[(S, "format(Ljava/lang/String;[Ljava/lang/Object;)Ljava/lang/String;")] = fmt
    N[(S, "join(Ljava/lang/CharSequence;[Ljava/lang/CharSequence;)Ljava/lang/String;")] = lambda d, a: join(d, a.a)

    def join(d, xs):
        out = ""
        for i, x in enumerate(xs):
            out = out + (d if i else "") + vm.text(x)
        return out

    def join_iter(d, it):
        xs = []
        i = vm.vt_of(it)["iterator()Ljava/util/Iterator;"](it)
        while vm.vt_of(i)["hasNext()Z"](i):
            xs.append(vm.vt_of(i)["next()Ljava/lang/Object;"](i))
        return join(d, xs)
    N[(S, "join(Ljava/lang/CharSequence;Ljava/lang/Iterable;)Ljava/lang/String;")] = join_iter

    def charsets():
        st = vm.cls("java/nio/charset/StandardCharsets").statics
        for n, v in (("UTF_8", "utf-8"), ("ISO_8859_1", "latin-1"), ("US_ASCII", "ascii"), ("UTF_16BE", "utf-16-be"),
                     ("UTF_16LE", "utf-16-le"), ("UTF_16", "utf-16")):
            setattr(st, vm.static_attr(n), v)
    N[("java/nio/charset/StandardCharsets", "<clinit>")] = charsets

    def encode(s, cs="utf-8"):
        return vm.bytes_array(s.encode(cs if isinstance(cs, str) else "utf-8"))
    N[(S, "getBytes")] = encode

    def strnew(d, *a):
        if d == "()V":
            return ""
        if d.startswith("(Ljava/lang/String"):
            return SymJavaCopy(a[0])
        if d.startswith("([C"):
            x = a[0].a
            x = x[a[1]:a[1] + a[2]] if d.startswith("([CII") else x
            return "".join(H["chr16"](c) for c in x)
        if d.startswith("([B"):
            b = vm.content(a[0])
            a = a[1:]
            if d.startswith("([BII"):
                b = b[a[0]:a[0] + a[1]]
                a = a[2:]
            return b.decode(a[0] if a and isinstance(a[0], str) else "utf-8")
        raise V.Unsupported("new String" + d)

    def SymJavaCopy(x):
        return x[:1] + x[1:] if isinstance(x, str) and len(x) > 1 else x
    H["strnew"] = strnew

    # StringBuilder
    for SB in ("java/lang/StringBuilder", "java/lang/StringBuffer"):
        def init(o, x=None):
            o.s = x if isstr(x) else ""
        N[(SB, "<init>")] = init
        for d in ("I", "J", "Z", "C", "D", "F", "Ljava/lang/Object;", "Ljava/lang/String;", "Ljava/lang/CharSequence;",
                  "Ljava/lang/StringBuffer;"):
            def append(o, x, d=d):
                o.s = o.s + vm.text(x, d if len(d) == 1 else "Ljava/lang/Object;")
                return o
            for r in (SB, "java/lang/AbstractStringBuilder"):
                N[(SB, "append(%s)L%s;" % (d, r))] = append
        N[(SB, "append(Ljava/lang/CharSequence;)Ljava/lang/Appendable;")] = lambda o, x: N[(SB, "append(Ljava/lang/Object;)L%s;" % SB)](o, x)

        def append_part(o, x, a, b, SB=SB):
            o.s = o.s + sub(vm.text(x), a, b)
            return o
        N[(SB, "append(Ljava/lang/CharSequence;II)L%s;" % SB)] = append_part
        N[(SB, "toString()Ljava/lang/String;")] = lambda o: o.s
        N[(SB, "length()I")] = lambda o: ln(o.s)
        N[(SB, "charAt(I)C")] = lambda o, i: char_at(o.s, i)
        N[(SB, "substring")] = lambda o, a, b=None: sub(o.s, a, b)

        def set_length(o, n):
            o.s = sub(o.s, 0, n) if n <= ln(o.s) else o.s + "\0" * conc(n - ln(o.s))
        N[(SB, "setLength(I)V")] = set_length

        def insert(o, i, x, SB=SB):
            o.s = sub(o.s, 0, i) + vm.text(x) + sub(o.s, i)
            return o
        N[(SB, "insert(ILjava/lang/String;)L%s;" % SB)] = insert

        def delete(o, a, b):
            o.s = sub(o.s, 0, a) + (sub(o.s, b) if b < ln(o.s) else "")
            return o
        N[(SB, "delete(II)L%s;" % SB)] = delete
    for c in ("Character",):
        K = "java/lang/" + c
        for n, f in (("isWhitespace", str.isspace), ("isDigit", str.isdigit), ("isLetter", str.isalpha), ("isLetterOrDigit", str.isalnum),
                     ("isUpperCase", str.isupper), ("isLowerCase", str.islower)):
            N[(K, n)] = lambda x, f=f: B(f(chr(conc(x))))
        N[(K, "toLowerCase")] = lambda x: ord(chr(conc(x)).lower()[0])
        N[(K, "toUpperCase")] = lambda x: ord(chr(conc(x)).upper()[0])
        N[(K, "isSurrogate")] = N[(K, "isHighSurrogate")] = N[(K, "isLowSurrogate")] = lambda x: B(And(x >= 0xd800, x <= 0xdfff))


def install_io(vm, N, H, exc, conc, B):
    """byte streams in memory, over byte strings of any length"""
    O = "java/io/ByteArrayOutputStream"

    def oinit(o, n=32):
        o.v = b""
        o.f_count = 0

    def oadd(o, data):
        o.v = o.v + data if not isinstance(o.v, bytes) or isinstance(data, bytes) else data.__radd__(o.v)
        o.f_count = len(o.v) if isinstance(o.v, bytes) else o.v.sx_len()

    def owrite(o, b):
        oadd(o, to_bytes([b & 255]))

    def owrites(o, r, off=0, n=None):
        size = H["alen"](r)
        if n is None:
            n = size
        if not And(off >= 0, n >= 0, off + n <= size):
            raise exc("java/lang/IndexOutOfBoundsException")
        oadd(o, vm.cut(r, off, n))
    N[(O, "<init>")] = oinit
    N[(O, "write(I)V")] = owrite
    N[(O, "write([BII)V")] = owrites
    N[(O, "writeBytes([B)V")] = owrites
    N[(O, "size()I")] = lambda o: o.f_count
    N[(O, "toByteArray()[B")] = lambda o: vm.bytes_array(o.v)
    N[(O, "reset()V")] = lambda o: oinit(o)
    N[(O, "writeTo")] = lambda o, t: vm.vt_of(t)["write([BII)V"](t, vm.bytes_array(o.v), 0, o.f_count)

    I = "java/io/ByteArrayInputStream"

    def iinit(o, r, off=0, n=None):
        o.v = SxByteArray(vm.content(r)) if n is None else SxByteArray(vm.cut(r, off, n))
        o.at = 0
        o.marked = 0

    def isize(o):
        return o.v.sx_len()

    def iread(o):
        if o.at >= isize(o):
            return -1
        v = o.v[o.at]
        o.at = o.at + 1
        return v

    def ireads(o, r, off=0, n=None):
        size = H["alen"](r)
        if n is None:
            n = size
        if not And(off >= 0, n >= 0, off + n <= size):
            raise exc("java/lang/IndexOutOfBoundsException")
        left = isize(o) - o.at
        if left <= 0:
            return -1
        if n > left:
            n = left
        if n <= 0:
            return 0
        vm.put(r, off, n, to_bytes(o.v[o.at:o.at + n]))
        o.at = o.at + n
        return n

    def iskip(o, n):
        left = isize(o) - o.at
        k = n if n < left else left
        if k < 0:
            k = 0
        o.at = o.at + k
        return k

    def iall(o):
        data = to_bytes(o.v[o.at:isize(o)])
        o.at = isize(o)
        return vm.bytes_array(data)

    def ireset(o):
        o.at = o.marked

    def imark(o, n):
        o.marked = o.at
    N[(I, "<init>")] = iinit
    N[(I, "read()I")] = iread
    N[(I, "read([BII)I")] = ireads
    N[(I, "skip(J)J")] = iskip
    N[(I, "available()I")] = lambda o: isize(o) - o.at
    N[(I, "readAllBytes()[B")] = iall
    N[(I, "reset()V")] = ireset
    N[(I, "mark(I)V")] = imark
    D = "java/io/DataOutputStream"

    def wint(size):
        def f(o, v):
            m = 1 << (8 * size)
            if not And(v >= -(m >> 1), v < (m >> 1)):
                v = (v + (m >> 1)) % m - (m >> 1)
            data = vm.bytes_array(to_bytes(v.to_bytes(size, "big", signed=True)))
            vm.vt_of(o.f_out)["write([BII)V"](o.f_out, data, 0, size)
            o.f_written = o.f_written + size
        return f
    N[(D, "writeInt(I)V")] = wint(4)
    N[(D, "writeLong(J)V")] = wint(8)
    N[(D, "writeShort(I)V")] = wint(2)
    # ------------------------------------------------------------------------------------------------ compression
    def zinit(o, *a):
        o.zin, o.zout, o.zat = b"", None, 0

    def zinput(o, r, off=0, n=None):
        o.zin, o.zout, o.zat = (vm.content(r) if n is None else vm.cut(r, off, n)), None, 0

    def ztake(o, r, off, n):
        left = blen(o.zout) - o.zat
        k = left if left < n else n
        vm.put(r, off, k, to_bytes(SymBytes(SymBytes.of(o.zout))[o.zat:o.zat + k]))
        o.zat = o.zat + k
        return k

    def deflate(o, r, off=0, n=None):
        if o.zout is None:
            o.zout = zlib_codec.compress(o.zin)
            if isinstance(o.zout, SymBytes):
                core.CTX.assume(blen(o.zout) <= ZIP_MOST)
        return ztake(o, r, off, H["alen"](r) if n is None else n)

    def inflate(o, r, off=0, n=None):
        if o.zout is None:
            try:
                o.zout = zlib_codec.decompress(o.zin)
            except zlib.error:
                raise exc("java/util/zip/DataFormatException", "invalid compressed data")
        return ztake(o, r, off, H["alen"](r) if n is None else n)

    def zdone(o):
        return B(o.zout is not None and o.zat == blen(o.zout))
    zlib_codec = Codec("zlib", zlib.compress, zlib.decompress, zlib.error)
    vm.resets.append(zlib_codec.reset)
    for Z, f in (("Deflater", deflate), ("Inflater", inflate)):
        Z = "java/util/zip/" + Z
        N[(Z, "<clinit>")] = lambda: None
        N[(Z, "<init>")] = zinit
        N[(Z, "setInput([B)V")] = N[(Z, "setInput([BII)V")] = zinput
        N[(Z, "finish()V")] = N[(Z, "end()V")] = N[(Z, "reset()V")] = lambda o: None
        N[(Z, f.__name__ + "([B)I")] = N[(Z, f.__name__ + "([BII)I")] = f
        N[(Z, "finished()Z")] = zdone
