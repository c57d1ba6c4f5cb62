"""Runtime of the instrumented code: what rewritten expressions call."""
import builtins
import sys
import string
import types
from .core import (Sym, SymInt, SymBool, SymFloat, And, Or, Not, Ite, Control, Unsupported, ctx)
from . import core
from .seq import (FmtBase, Rope, SymStr, SymBytes, SxByteArray, SxBytesIO, View, Ch, TextBase, Tok, same,
                  clamp_slice, sx_index, str_join, bytes_join, to_bytes, int_to_bytes, bytes_to_int,
                  utf8_pieces, utf8_decode, _pad, from_codes, chars_of, sx_eq, str_lt)
from .containers import SxDict, SxSet, SxRange, sx_range, sx_hash, contains_sym, symbolic_key, key_match

BuiltinMethod = types.BuiltinMethodType
MethodDescriptor = types.MethodDescriptorType
WrapperDescriptor = types.WrapperDescriptorType
MethodWrapper = types.MethodWrapperType
FunctionType = types.FunctionType


# ------------------------------------------------------------------------------------- formatting
def int_str(x):
    if not isinstance(x, SymInt):
        return str(int(x))
    n = 1
    neg = Ite(x < 0, 1, 0)
    a = Ite(x < 0, -x, x)
    for d in range(1, 20):
        n = n + Ite(a >= 10 ** d, 1, 0)
    ln = n + neg
    b = FmtBase("int", x, ln)
    return SymStr.make([View(b, 0, ln)])


def opaque_str(kind, payload):
    ln = ctx().fresh("fmtlen", 1, 40)
    return SymStr.make([View(FmtBase(kind, payload, ln), 0, ln)])


def float_str(x):
    lo, hi = None, None
    return opaque_str("float", x)


def sx_str(x=""):
    if isinstance(x, Sym):
        if isinstance(x, SymStr):
            return x
        if isinstance(x, SymInt):
            return int_str(x)
        if isinstance(x, SymBool):
            return "True" if x else "False"
        if isinstance(x, SymFloat):
            return float_str(x)
        return opaque_str("str", x)
    t = type(x)
    if t is str:
        return x
    f = t.__str__
    if isinstance(f, FunctionType):
        r = f(x)
        if not isinstance(r, (str, SymStr)):
            raise TypeError("__str__ returned non-string (type %s)" % type(r).__name__)
        return r
    if f is object.__str__ or t in (list, tuple, dict, SxDict, SxSet, set):
        return sx_repr(x)
    if isinstance(x, BaseException) and f is BaseException.__str__:
        a = x.args
        return "" if not a else sx_str(a[0]) if len(a) == 1 else sx_repr(a)
    return str(x)


def sx_repr(x):
    if isinstance(x, Sym):
        if isinstance(x, SymStr):
            return str_repr(x)
        if isinstance(x, SymInt):
            return int_str(x)
        if isinstance(x, SymBool):
            return "True" if x else "False"
        if isinstance(x, SymFloat):
            return float_str(x)
        return opaque_str("repr", x)
    t = type(x)
    f = t.__repr__
    if isinstance(f, FunctionType):
        r = f(x)
        if not isinstance(r, (str, SymStr)):
            raise TypeError("__repr__ returned non-string (type %s)" % type(r).__name__)
        return r
    if f is list.__repr__ or f is tuple.__repr__:
        parts = [sx_repr(v) for v in list.__iter__(x)] if isinstance(x, list) else [sx_repr(v) for v in x]
        b = "[]" if isinstance(x, list) else "()"
        body = str_join(", ", parts)
        if b == "()" and len(parts) == 1:
            body = body + ","
        return b[0] + body + b[1]
    if t in (dict, SxDict) or f is dict.__repr__:
        items = x.items()
        return "{" + str_join(", ", [sx_repr(k) + ": " + sx_repr(v) for k, v in items]) + "}"
    if t in (set, SxSet, frozenset):
        return "{" + str_join(", ", [sx_repr(k) for k in x]) + "}" if len(x) else "set()"
    return repr(x)


def str_repr(s):
    out = ["'"]
    for p in s.pieces:
        if isinstance(p, str):
            out.append(repr(p)[1:-1])
        elif isinstance(p, Ch):
            if isinstance(p.code, int):
                out.append(repr(chr(p.code))[1:-1])
            elif And(p.code >= 32, p.code < 127, p.code != 39, p.code != 92, p.code != 34):
                out.append(p)
            else:
                out.append(repr(chr(ctx().pin(p.code, "repr")))[1:-1])
        else:
            out.append(p)
    out.append("'")
    return SymStr.make(out)


def has_sym(v):
    if isinstance(v, Sym):
        return True
    if isinstance(v, (list, tuple)):
        return any(has_sym(x) for x in (list.__iter__(v) if isinstance(v, list) else v))
    if isinstance(v, SxDict):
        return True
    return type(v).__module__.startswith("docria") or isinstance(v, (dict, set))


def fmt_percent(fmt, args):
    """fmt % args"""
    if isinstance(fmt, SymStr):
        fmt = fmt.concrete()
    is_map = isinstance(args, dict)
    tup = args if type(args) is tuple else (args,)
    if not any(has_sym(a) for a in tup):
        return fmt % args
    out = []
    i = 0
    k = 0
    n = len(fmt)
    while i < n:
        j = fmt.find("%", i)
        if j < 0:
            out.append(fmt[i:])
            break
        if j > i:
            out.append(fmt[i:j])
        i = j + 1
        if i >= n:
            raise ValueError("incomplete format")
        key = None
        if fmt[i] == "(":
            e = fmt.index(")", i)
            key = fmt[i + 1:e]
            i = e + 1
        st = i
        while i < n and fmt[i] in "#0- +":
            i += 1
        while i < n and (fmt[i].isdigit() or fmt[i] == "."):
            i += 1
        if i < n and fmt[i] == "*":
            raise Unsupported("%* format")
        flags = fmt[st:i]
        if i >= n:
            raise ValueError("incomplete format")
        c = fmt[i]
        i += 1
        if c == "%":
            out.append("%")
            continue
        if key is not None:
            v = args[key]
        else:
            if k >= len(tup):
                raise TypeError("not enough arguments for format string")
            v = tup[k]
            k += 1
        out.append(fmt_one(c, flags, v))
    if k < len(tup) and not is_map:
        raise TypeError("not all arguments converted during string formatting")
    return str_join("", out)


def fmt_one(c, flags, v):
    if c in "sra":
        s = sx_str(v) if c == "s" else sx_repr(v)
        if flags:
            if isinstance(s, SymStr):
                left = "-" in flags
                w = flags.strip("-0+ #")
                if "." in w or not w.isdigit():
                    raise Unsupported("format %" + flags + c)
                return s.ljust(int(w)) if left else s.rjust(int(w))
            return ("%" + flags + "s") % s
        return s
    if c in "diu":
        if isinstance(v, SymBool):
            v = int(bool(v))
        if isinstance(v, SymFloat):
            v = v.trunc()
        if isinstance(v, SymInt):
            if flags:
                return ("%" + flags + c) % ctx().concretize(v)
            return int_str(v)
        if isinstance(v, Sym):
            raise TypeError("%%%s format: a real number is required, not %s" % (c, v.sx_type.__name__))
        return ("%" + flags + c) % v
    if isinstance(v, SymInt):
        v = ctx().concretize(v)
    elif isinstance(v, SymFloat):
        v = v.concrete()
    return ("%" + flags + c) % v


def sx_format(v, spec=""):
    if isinstance(spec, SymStr):
        spec = spec.concrete() if any(not isinstance(p, str) for p in spec.pieces) else str(spec)
    if not isinstance(v, Sym):
        if spec == "":
            f = type(v).__format__
            if f is object.__format__:
                return sx_str(v)
        if isinstance(v, str) or isinstance(v, (int, float)) or v is None:
            return format(v, spec)
        r = type(v).__format__(v, spec) if not isinstance(v, type) else format(v, spec)
        return r
    if isinstance(v, SymBool):
        v = bool(v)
        return format(v, spec)
    if spec == "":
        return sx_str(v)
    if isinstance(v, SymStr):
        m = spec[:-1] if spec.endswith("s") else spec
        ch, align = " ", "<"
        if len(m) >= 2 and m[1] in "<>^":
            ch, align, m = m[0], m[1], m[2:]
        elif m and m[0] in "<>^":
            align, m = m[0], m[1:]
        if m and m.isdigit():
            return _pad(v, int(m), ch, {"<": 0, ">": 1, "^": 2}[align])
        if not m:
            return v
        raise Unsupported("format spec %r" % spec)
    if isinstance(v, SymInt):
        if spec == "d":
            return int_str(v)
        return format(ctx().concretize(v), spec)
    if isinstance(v, SymFloat):
        return format(v.concrete(), spec)
    raise TypeError("unsupported format string passed to %s.__format__" % v.sx_type.__name__)


def str_format(fmt, args, kwargs):
    if isinstance(fmt, SymStr):
        return fmt_pieces(fmt, args, kwargs)
    if not any(has_sym(a) for a in args) and not any(has_sym(a) for a in kwargs.values()):
        return fmt.format(*args, **kwargs)
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        first, rest = string._string.formatter_field_name_split(field)
        if first == "":
            first = auto
            auto += 1
        v = args[first] if isinstance(first, int) else kwargs[first]
        for is_attr, name in rest:
            v = getattr(v, name) if is_attr else v[name]
        if spec and "{" in spec:
            spec = str_format(spec, args, kwargs)
        if conv == "r":
            v = sx_repr(v)
        elif conv == "s":
            v = sx_str(v)
        out.append(sx_format(v, spec or ""))
    return str_join("", out)


def fmt_pieces(fmt, args, kwargs):
    """A format string containing formatted integers (e.g. built as "{:<%d}" % w)."""
    # resolve "{:<W}" where W is symbolic: literal pieces around FmtBase ints
    toks = []
    for p in fmt.pieces:
        if isinstance(p, str):
            toks.extend(p)
        elif isinstance(p, View) and isinstance(p.base, FmtBase) and p.base.kind == "int" and p.full():
            toks.append(p.base.payload)
        else:
            toks.append(p)
    out = []
    auto = 0
    i = 0
    while i < len(toks):
        t = toks[i]
        if t == "{" and isinstance(t, str):
            if toks[i + 1] == "{":
                out.append("{")
                i += 2
                continue
            j = i
            while not (isinstance(toks[j], str) and toks[j] == "}"):
                j += 1
            inner = toks[i + 1:j]
            # [name] [: [align] width]
            name = ""
            k = 0
            while k < len(inner) and inner[k] != ":":
                name += inner[k]
                k += 1
            spec = inner[k + 1:]
            if name == "":
                v = args[auto]
                auto += 1
            elif name.isdigit():
                v = args[int(name)]
            else:
                v = kwargs[name]
            align = "<"
            ch = " "
            if spec and isinstance(spec[0], str) and spec[0] in "<>^":
                align = spec[0]
                spec = spec[1:]
            if len(spec) == 1 and isinstance(spec[0], SymInt):
                out.append(_pad(sx_str(v), spec[0], ch, {"<": 0, ">": 1, "^": 2}[align]))
            elif all(isinstance(c, str) for c in spec):
                out.append(sx_format(v, align + "".join(spec) if spec else ""))
            else:
                raise Unsupported("format spec")
            i = j + 1
        elif isinstance(t, str) and t == "}":
            out.append("}")
            i += 2
        else:
            if isinstance(t, str):
                out.append(t)
            elif isinstance(t, SymInt):
                out.append(int_str(t))
            else:
                out.append(SymStr.make([t]))
            i += 1
    return str_join("", out)


def sx_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            v, conv, spec = p
            if conv == 114:
                v = sx_repr(v)
            elif conv == 115:
                v = sx_str(v)
            elif conv == 97:
                v = sx_repr(v)
            out.append(sx_format(v, spec))
    return str_join("", out)


# ------------------------------------------------------------------------------------- built-ins
def sx_len(x):
    if isinstance(x, (Rope, SxByteArray, SxRange)):
        return x.sx_len()
    f = getattr(type(x), "__len__", None)
    if isinstance(f, FunctionType):
        n = f(x)
        if isinstance(n, (int, SymInt)):
            if isinstance(n, SymInt) and not (n >= 0):
                raise ValueError("__len__() should return >= 0")
            if isinstance(n, int) and n < 0:
                raise ValueError("__len__() should return >= 0")
            return n
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(n).__name__)
    return len(x)


def sx_truth(x):
    if x is True or x is False:
        return x
    if isinstance(x, Sym):
        return bool(x)
    t = type(x)
    if not hasattr(t, "__bool__"):
        f = getattr(t, "__len__", None)
        if isinstance(f, FunctionType):
            return bool(sx_len(x) != 0)
    return bool(x)


def sx_not(x):
    if isinstance(x, SymBool):
        return Not(x)
    return not sx_truth(x)


def sx_bool(x=False):
    return sx_truth(x)


def sx_int(x=0, *a, **k):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, SymFloat):
        return x.trunc()
    if isinstance(x, SymStr):
        if len(x.pieces) == 1 and isinstance(x.pieces[0], View) and isinstance(x.pieces[0].base, FmtBase) \
                and x.pieces[0].base.kind == "int":
            return x.pieces[0].base.payload
        return int(x.concrete(), *a, **k)
    if isinstance(x, Sym):
        raise TypeError("int() argument must be a string, a bytes-like object or a real number, not %r"
                        % x.sx_type.__name__)
    for m in ("__int__", "__index__"):
        f = getattr(type(x), m, None)
        if isinstance(f, FunctionType):
            r = f(x)
            if isinstance(r, SymInt):
                return r
            break
    return int(x, *a, **k)


def sx_float(x=0.0):
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymInt):
        return SymFloat(x, 1)
    if isinstance(x, SymBool):
        return float(bool(x))
    if isinstance(x, SymStr):
        if len(x.pieces) == 1 and isinstance(x.pieces[0], View) and isinstance(x.pieces[0].base, FmtBase) \
                and x.pieces[0].base.kind == "float" and x.pieces[0].full():
            return x.pieces[0].base.payload
        return float(x.concrete())
    if isinstance(x, Sym):
        raise TypeError("float() argument must be a string or a real number, not %r" % x.sx_type.__name__)
    return float(x)


def sx_type(x, *a, **k):
    if a:
        return type(x, *a, **k)
    if isinstance(x, Sym):
        return x.sx_type
    if isinstance(x, SxDict) and type(x) is SxDict:
        return dict
    if type(x) is SxSet:
        return set
    if isinstance(x, SxRange):
        return range
    return type(x)


def sx_isinstance(x, t):
    if isinstance(x, Sym):
        if isinstance(t, tuple):
            return any(sx_isinstance(x, u) for u in t)
        if t is SxByteArray:
            t = bytearray
        try:
            return issubclass(x.sx_type, t)
        except TypeError:
            return isinstance(x, t)
    if isinstance(x, SxRange):
        return isinstance(range(0), t)
    return isinstance(x, t)


def sx_chr(x):
    if isinstance(x, SymInt):
        if not And(x >= 0, x <= 0x10FFFF):
            raise ValueError("chr() arg not in range(0x110000)")
        return SymStr([Ch(x)])
    return chr(x)


def sx_ord(x):
    if isinstance(x, SymStr):
        if not (x.sx_len() == 1):
            raise TypeError("ord() expected a character, but string of length != 1 found")
        cs = x.codes()
        if cs is not None:
            return cs[0]
        return ord(x.concrete())
    if isinstance(x, SymBytes):
        return x.item(0)
    return ord(x)


def wrap_fn(f):
    """A callable passed to map/filter/sort: builtins must stay symbolic-aware."""
    if f is None or isinstance(f, FunctionType):
        return f
    return lambda *a: sx_call(f, *a)


def sx_map(f, *its):
    return map(wrap_fn(f), *its)


def sx_filter(f, it):
    return filter(wrap_fn(f), it)


def sx_sorted(it, /, *, key=None, reverse=False):
    out = list(iter(it))
    out.sort(key=wrap_fn(key), reverse=reverse)
    return out


def sx_minmax(native):
    def f(*a, **k):
        if "key" in k:
            k["key"] = wrap_fn(k["key"])
        return native(*a, **k)
    return f


def sx_list(*a):
    if not a:
        return []
    x = a[0]
    if type(x) in (list, tuple, str, dict, set, range):
        return list(x)
    return list(iter(x))


def sx_tuple(*a):
    if not a:
        return ()
    x = a[0]
    if type(x) in (list, tuple, str, dict, set, range):
        return tuple(x)
    return tuple(iter(x))


def sx_bytes(x=b"", *a, **k):
    if isinstance(x, (str, SymStr)):
        if isinstance(x, str) and not isinstance(x, Sym):
            return bytes(x, *a, **k)
        return x.encode(*a, **k)
    if isinstance(x, (Sym, list, tuple)):
        return to_bytes(x)
    f = getattr(type(x), "__bytes__", None)
    if isinstance(f, FunctionType):
        return f(x)
    if isinstance(x, SxBytesIO):
        raise TypeError("cannot convert")
    if isinstance(x, (int, bytes, bytearray, memoryview)):
        return bytes(x)
    if hasattr(x, "__iter__"):
        return to_bytes(list(x))
    return bytes(x)


def sx_memoryview(x):
    return to_bytes(x)


def sx_dict(*a, **k):
    return SxDict(*a, **k)


def sx_set(*a):
    return SxSet(*a)


def sx_frozenset(*a):
    s = SxSet(*a)
    return frozenset(s) if s._al is None else s


def sx_iter(x, *a):
    if a:
        return iter(x, *a)
    return iter(x)


def sx_round(x, nd=None):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymFloat):
        return round(x.concrete(), nd)
    return round(x, nd) if nd is not None else round(x)


PRINTED = None      # list that collects what is printed to standard output, when a harness asks for it


def sx_print(*a, sep=" ", end="\n", file=None, flush=False):
    if PRINTED is not None and (file is None or file is sys.stdout):
        for i, x in enumerate(a):
            if i:
                PRINTED.append(" " if sep is None else sep)
            PRINTED.append(sx_str(x))
        PRINTED.append("\n" if end is None else end)


def sx_enumerate(it, start=0):
    i = start
    for x in it:
        yield i, x
        i = i + 1


def sx_sum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def sx_any(it):
    for x in it:
        if sx_truth(x):
            return True
    return False


def sx_all(it):
    for x in it:
        if not sx_truth(x):
            return False
    return True


def sx_slice_indices(sl, n):
    step = sl.step
    if step is not None and not same(step, 1):
        if isinstance(step, SymInt):
            step = ctx().concretize(step)
        if step < 0 or any(isinstance(v, SymInt) for v in (sl.start, sl.stop, n)):
            cv = [None if v is None else ctx().concretize(sx_index(v)) for v in (sl.start, sl.stop)]
            return slice(cv[0], cv[1], step).indices(ctx().concretize(n))
    else:
        step = 1
    if n < 0:
        raise ValueError("length should not be negative")
    a, b = clamp_slice(sl.start, sl.stop, n)
    return a, b, step


TABLE = {}


def _reg(native, h):
    TABLE[id(native)] = h


for _n, _h in dict(len=sx_len, bool=sx_bool, int=sx_int, float=sx_float, str=sx_str, repr=sx_repr,
                   type=sx_type, isinstance=sx_isinstance, chr=sx_chr, ord=sx_ord, map=sx_map,
                   filter=sx_filter, sorted=sx_sorted, min=sx_minmax(min), max=sx_minmax(max), list=sx_list,
                   tuple=sx_tuple, bytes=sx_bytes, bytearray=SxByteArray, memoryview=sx_memoryview,
                   dict=sx_dict, set=sx_set, frozenset=sx_frozenset, range=sx_range, hash=sx_hash,
                   round=sx_round, print=sx_print, enumerate=sx_enumerate, sum=sx_sum, any=sx_any, all=sx_all,
                   format=sx_format).items():
    _reg(getattr(builtins, _n), _h)

NATIVE_SELF = (list, set, dict)


def _any_sym(a, k):
    for x in a:
        if isinstance(x, Sym):
            return True
    for x in k.values():
        if isinstance(x, Sym):
            return True
    return False


def _conc_slice(s):
    """Concrete version of a slice with symbolic ends, given nothing about the length."""
    return slice(*(ctx().concretize(v) if isinstance(v, SymInt) else v for v in (s.start, s.stop, s.step)))


def seq_getitem(o, i):
    """list/tuple indexed by something symbolic."""
    n = list.__len__(o) if isinstance(o, list) else len(o)
    get = list.__getitem__ if isinstance(o, list) else tuple.__getitem__
    if isinstance(i, slice):
        if i.step is not None:
            return get(o, _conc_slice(i))
        a, b = clamp_slice(i.start, i.stop, n)
        a = ctx().concretize(a)
        return get(o, slice(a, ctx().concretize(b)))
    if isinstance(i, SymBool):
        return get(o, int(bool(i)))
    if Or(i >= n, i < -n):
        raise IndexError("list index out of range")
    return get(o, ctx().concretize(i))


def sym_slice(i):
    return isinstance(i, slice) and (isinstance(i.start, Sym) or isinstance(i.stop, Sym) or isinstance(i.step, Sym))


def sx_call(f, /, *a, **k):
    h = TABLE.get(id(f))
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is FunctionType or t is types.MethodType:
        return f(*a, **k)
    if t is BuiltinMethod:
        s = f.__self__
        ts = type(s)
        if ts is list:
            if k and "key" in k and f.__name__ == "sort":
                k["key"] = wrap_fn(k["key"])
            if f.__name__ == "extend" and a and type(a[0]) not in (list, tuple):
                return f(iter(a[0]))
            return f(*a, **k)
        if ts is str or ts is bytes:
            name = f.__name__
            if name == "join":
                items = list(iter(a[0]))
                return (str_join if ts is str else bytes_join)(s, items)
            if name == "format" and ts is str:
                return str_format(s, a, k)
            if name == "decode":
                return f(*a, **k)
            if _any_sym(a, k) or any(type(x) is tuple and contains_sym(x) for x in a):
                return getattr(SymStr((s,)) if ts is str else SymBytes((s,)), name)(*a, **k)
            return f(*a, **k)
        if ts is slice and f.__name__ == "indices":
            return sx_slice_indices(s, *a)
        if s is int and f.__name__ == "from_bytes":
            return bytes_to_int(*a, **k)
        if s is dict and f.__name__ == "fromkeys":
            return SxDict.fromkeys(*a)
        if s is str and f.__name__ == "maketrans":
            return f(*a, **k)
        if ts is int and f.__name__ == "to_bytes" and _any_sym(a, k):
            return int_to_bytes(s, *a, **k)
        return f(*a, **k)
    if t is MethodDescriptor:
        oc = f.__objclass__
        if a:
            s = a[0]
            if oc is str and (isinstance(s, str) or isinstance(s, SymStr)):
                return sx_call(getattr(s, f.__name__), *a[1:], **k)
            if isinstance(s, SxDict) and oc is dict or isinstance(s, SxSet) and oc is set \
                    or isinstance(s, SymBytes) and oc is bytes:
                return getattr(s, f.__name__)(*a[1:], **k)
        return f(*a, **k)
    if t is WrapperDescriptor:
        if a and isinstance(a[0], (list, tuple)) and f.__name__ == "__getitem__" and len(a) == 2 and \
                (isinstance(a[1], SymInt) or sym_slice(a[1])):
            return seq_getitem(a[0], a[1])
        if a and isinstance(a[0], Sym):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if f is object.__init_subclass__:
            return f(*a, **k)
        return f(*a, **k)
    return f(*a, **k)


def sx_getitem(o, i):
    t = type(o)
    if isinstance(i, Sym) or sym_slice(i):
        if t is list or t is tuple:
            return seq_getitem(o, i)
        if t is str:
            return SymStr((o,))[i] if o else (""[0:0] if isinstance(i, slice) else o[ctx().concretize(i)])
        if t is bytes:
            if not o:
                return b"" if isinstance(i, slice) else o[ctx().concretize(i)]
            return SymBytes((o,))[i]
        if t is range:
            if isinstance(i, SymInt):
                return SxRange(o.start, o.stop, o.step)[i]
        if isinstance(o, dict) and not isinstance(o, SxDict) and isinstance(i, Sym) \
                and not isinstance(t.__getitem__, FunctionType):
            for k, v in o.items():
                if key_match(i, k):
                    return v
            return o[ctx().concretize(i)] if isinstance(i, SymInt) else o[i]
    return o[i]


def sx_in(a, b):
    t = type(b)
    if isinstance(a, Sym):
        if t is str:
            return SymStr((b,)).__contains__(a) if b else bool(a.sx_len() == 0)
        if t is range:
            return bool(SxRange(b.start, b.stop, b.step).__contains__(a))
        if isinstance(b, (dict, set, frozenset)) and not isinstance(b, (SxDict, SxSet)) \
                and not isinstance(t.__contains__, FunctionType):
            return any(key_match(a, k) for k in list(b))
        if isinstance(b, types.MappingProxyType) or t in (type({}.keys()),):
            return any(key_match(a, k) for k in list(b))
    elif isinstance(a, tuple) and isinstance(b, (dict, set, frozenset)) and contains_sym(a) \
            and not isinstance(b, (SxDict, SxSet)):
        return any(key_match(a, k) for k in list(b))
    return a in b


def sx_notin(a, b):
    return not sx_in(a, b)


def sx_mod(a, b):
    if isinstance(a, (str, SymStr)):
        return fmt_percent(a, b)
    return a % b


def sx_is(a, b):
    """a is True / a is False"""
    if isinstance(a, SymBool):
        return bool(a) is b
    return a is b


def sx_eqop(a, b):
    """a == b; tuples/lists with symbolic members give one formula instead of forks."""
    ta = type(a)
    if (ta is tuple or ta is list) and type(b) is ta and contains_sym(tuple(a) + tuple(b)):
        return sx_eq(a, b)
    return a == b


def sx_neop(a, b):
    ta = type(a)
    if (ta is tuple or ta is list) and type(b) is ta and contains_sym(tuple(a) + tuple(b)):
        return Not(sx_eq(a, b))
    return a != b
