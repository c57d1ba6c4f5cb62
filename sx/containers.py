"""Dictionaries, sets and ranges that accept symbolic keys and bounds."""
from .core import Sym, SymInt, SymBool, SymFloat, And, Or, Not, Unsupported, ctx
from .seq import Rope, sx_eq, same


class HashInt(int):
    """Result of hash() on concrete data that remembers what was hashed."""
    struct = None


class HashVal(Sym):
    __slots__ = ("struct",)
    sx_type = int

    def __init__(self, struct):
        self.struct = struct

    def __eq__(self, o):
        if isinstance(o, (HashVal, HashInt)):
            if is_plain(self.struct) and is_plain(o.struct):
                return sx_eq(self.struct, o.struct)
            return sx_eq(self.struct, o.struct)
        if isinstance(o, int):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        raise Unsupported("hash of symbolic hash")

    def __index__(self):
        raise Unsupported("symbolic hash used as a machine integer")

    def __xor__(self, o):
        return HashVal(("xor", self, o))
    __rxor__ = __xor__

    def __add__(self, o):
        return HashVal(("add", self, o))
    __radd__ = __add__

    def __mul__(self, o):
        return HashVal(("mul", self, o))
    __rmul__ = __mul__

    def __mod__(self, o):
        return HashVal(("mod", self, o))


def contains_sym(x):
    if isinstance(x, Sym):
        return True
    if type(x) in (tuple, frozenset):
        return any(contains_sym(y) for y in x)
    return False


def is_plain(x):
    t = type(x)
    return isinstance(x, Sym) or t in (int, str, bytes, float, bool, type(None), tuple)


def sx_hash(x):
    """hash(x) for the instrumented code."""
    if isinstance(x, Sym):
        if type(x).__hash__ is None:
            raise TypeError("unhashable type: %r" % x.sx_type.__name__)
        return HashVal(x)
    if type(x) is tuple:
        if contains_sym(x) or any(isinstance(sx_hash(y), HashVal) for y in x):
            return HashVal(x)
        h = HashInt(hash(x))
        h.struct = x
        return h
    f = type(x).__hash__
    if f is None:
        raise TypeError("unhashable type: %r" % type(x).__name__)
    h = f(x)
    if isinstance(h, (HashVal, HashInt)):
        return h
    if isinstance(h, Sym):
        return HashVal(h)
    r = HashInt(h)
    r.struct = x if is_plain(x) else h
    return r


def symbolic_key(k):
    t = type(k)
    if t is str or t is int or t is bool or k is None or t is bytes or t is float:
        return False
    if isinstance(k, Sym):
        return True
    return isinstance(sx_hash(k), HashVal)


def hash_eq(a, b):
    if is_plain(a) and is_plain(b):
        return True
    ha, hb = sx_hash(a), sx_hash(b)
    if isinstance(ha, HashInt) and isinstance(hb, HashInt):
        return int(ha) == int(hb)
    return ha == hb


def key_match(a, b):
    """Would a hash table treat a (looked up) and b (stored) as the same key?  Branches."""
    if a is b:
        return True
    if isinstance(a, SymInt) and isinstance(b, SymInt) and same(a, b):
        return True
    h = hash_eq(a, b)
    if h is False:
        return False
    e = sx_eq(a, b) if (is_plain(a) and is_plain(b)) else (a == b)
    if e is NotImplemented or e is False:
        return False
    if isinstance(h, SymBool) and isinstance(e, (SymBool, bool)):
        return bool(And(h, e))
    return bool(h) and bool(e)


_MISSING = object()


class SxDict(dict):
    """dict; switches to an association list once a symbolic key is involved."""
    __slots__ = ("_al",)

    def __init__(self, *args, **kw):
        dict.__init__(self)
        self._al = None
        if args:
            if len(args) > 1:
                raise TypeError("dict expected at most 1 argument, got %d" % len(args))
            self._fill(args[0])
        for k, v in kw.items():
            self[k] = v

    def _fill(self, src):
        if hasattr(src, "keys"):
            if type(src) is dict:
                for k, v in src.items():
                    self[k] = v
            else:
                for k in src.keys():
                    self[k] = src[k]
        else:
            for it in src:
                k, v = it
                self[k] = v

    def _to_al(self):
        if self._al is None:
            self._al = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)
        return self._al

    def _find(self, k):
        """Entry of the association list, or None."""
        al = self._al
        for e in al:
            if e[0] is k:
                return e
        for e in al:
            if isinstance(k, SymInt) and isinstance(e[0], SymInt) and same(k, e[0]):
                return e
        for e in al:
            if key_match(k, e[0]):
                return e
        return None

    def _use_al(self, k):
        if self._al is not None:
            return True
        if symbolic_key(k):
            if dict.__len__(self):
                self._to_al()
            else:
                self._al = []
            return True
        return False

    def __setitem__(self, k, v):
        if self._use_al(k):
            e = self._find(k)
            if e is None:
                self._al.append([k, v])
            else:
                e[1] = v
        else:
            dict.__setitem__(self, k, v)

    def __getitem__(self, k):
        if self._use_al(k):
            e = self._find(k)
            if e is None:
                return self.__missing__(k)
            return e[1]
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return self.__missing__(k)

    def __missing__(self, k):
        raise KeyError(k)

    def __delitem__(self, k):
        if self._use_al(k):
            e = self._find(k)
            if e is None:
                raise KeyError(k)
            self._al.remove(e)
        else:
            dict.__delitem__(self, k)

    def __contains__(self, k):
        if self._use_al(k):
            return self._find(k) is not None
        return dict.__contains__(self, k)

    def __len__(self):
        return dict.__len__(self) if self._al is None else len(self._al)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        return dict.__iter__(self) if self._al is None else iter([e[0] for e in self._al])

    def __reversed__(self):
        return reversed(list(iter(self)))

    def keys(self):
        return dict.keys(self) if self._al is None else SxKeys(e[0] for e in self._al)

    def values(self):
        return dict.values(self) if self._al is None else [e[1] for e in self._al]

    def items(self):
        return dict.items(self) if self._al is None else [(e[0], e[1]) for e in self._al]

    def get(self, k, d=None):
        if self._use_al(k):
            e = self._find(k)
            return d if e is None else e[1]
        return dict.get(self, k, d)

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def pop(self, k, *d):
        if self._use_al(k):
            e = self._find(k)
            if e is None:
                if d:
                    return d[0]
                raise KeyError(k)
            self._al.remove(e)
            return e[1]
        return dict.pop(self, k, *d)

    def popitem(self):
        if self._al is None:
            return dict.popitem(self)
        if not self._al:
            raise KeyError("popitem(): dictionary is empty")
        e = self._al.pop()
        return e[0], e[1]

    def update(self, *args, **kw):
        if args:
            self._fill(args[0])
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        dict.clear(self)
        self._al = None

    def copy(self):
        return SxDict(self)

    def __or__(self, o):
        d = SxDict(self)
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o:
                return False
            c = o[k]
            if not (v is c or bool(sx_eq(v, c))):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    @classmethod
    def fromkeys(cls, it, v=None):
        d = cls()
        for k in it:
            d[k] = v
        return d

    def __repr__(self):
        return "{...}"

    def __reduce__(self):
        return (dict, (dict(self.items()),))

    def _blank(self):
        return SxDict()

    def __copy__(self):
        d = self._blank()
        for k, v in self.items():
            d[k] = v
        return d

    def __deepcopy__(self, memo):
        import copy
        d = self._blank()
        memo[id(self)] = d
        for k, v in self.items():
            d[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return d


class SxKeys(list):
    """Keys of a dictionary with symbolic keys."""

    def _set(self):
        return SxSet(self)

    def __sub__(self, o): return self._set() - SxSet(o)
    def __and__(self, o): return self._set() & SxSet(o)
    def __or__(self, o): return self._set() | SxSet(o)


class SxDefaultDict(SxDict):
    __slots__ = ("default_factory",)

    def __init__(self, default_factory=None, *args, **kw):
        self.default_factory = default_factory
        SxDict.__init__(self, *args, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        from .rt import sx_call
        v = sx_call(self.default_factory)
        self[k] = v
        return v

    def _blank(self):
        return SxDefaultDict(self.default_factory)

    def copy(self):
        return SxDefaultDict(self.default_factory, self)


class SxSet(set):
    """set; switches to an association list once a symbolic element is involved."""
    __slots__ = ("_al",)

    def __init__(self, it=()):
        set.__init__(self)
        self._al = None
        for x in it:
            self.add(x)

    def _use_al(self, k):
        if self._al is not None:
            return True
        if symbolic_key(k):
            self._al = list(set.__iter__(self))
            set.clear(self)
            return True
        return False

    def _find(self, k):
        for i, x in enumerate(self._al):
            if x is k or (isinstance(k, SymInt) and isinstance(x, SymInt) and same(k, x)):
                return i
        for i, x in enumerate(self._al):
            if key_match(k, x):
                return i
        return -1

    def add(self, x):
        if self._use_al(x):
            if self._find(x) < 0:
                self._al.append(x)
        else:
            set.add(self, x)

    def __contains__(self, x):
        if self._use_al(x):
            return self._find(x) >= 0
        return set.__contains__(self, x)

    def __iter__(self):
        return set.__iter__(self) if self._al is None else iter(list(self._al))

    def __len__(self):
        return set.__len__(self) if self._al is None else len(self._al)

    def __bool__(self):
        return len(self) > 0

    def remove(self, x):
        if self._use_al(x):
            i = self._find(x)
            if i < 0:
                raise KeyError(x)
            del self._al[i]
        else:
            set.remove(self, x)

    def discard(self, x):
        if self._use_al(x):
            i = self._find(x)
            if i >= 0:
                del self._al[i]
        else:
            set.discard(self, x)

    def pop(self):
        if self._al is None:
            return set.pop(self)
        if not self._al:
            raise KeyError("pop from an empty set")
        return self._al.pop(0)

    def clear(self):
        set.clear(self)
        self._al = None

    def copy(self):
        return SxSet(self)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        s = SxSet(self)
        s.update(*its)
        return s

    def difference(self, *its):
        others = [SxSet(it) for it in its]
        return SxSet(x for x in self if not any(x in o for o in others))

    def intersection(self, *its):
        others = [SxSet(it) for it in its]
        return SxSet(x for x in self if all(x in o for o in others))

    def difference_update(self, *its):
        r = list(self.difference(*its))
        self.clear()
        self.update(r)

    def intersection_update(self, *its):
        r = list(self.intersection(*its))
        self.clear()
        self.update(r)

    def symmetric_difference(self, o):
        o = SxSet(o)
        return self.difference(o).union(o.difference(self))

    def issubset(self, o):
        o = SxSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __or__(self, o): return self.union(o)
    __ror__ = __or__
    def __and__(self, o): return self.intersection(o)
    __rand__ = __and__
    def __sub__(self, o): return self.difference(o)
    def __rsub__(self, o): return SxSet(o).difference(self)
    def __xor__(self, o): return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    def __lt__(self, o): return self.issubset(o) and len(self) < len(o)
    def __gt__(self, o): return self.issuperset(o) and len(self) > len(o)

    __hash__ = None

    def __deepcopy__(self, memo):
        import copy
        return SxSet(copy.deepcopy(x, memo) for x in self)

    def __reduce__(self):
        return (set, (list(self),))

    def __repr__(self):
        return "{...}"


class SxRange:
    """range with symbolic bounds; iteration asks the solver whether to go on."""

    def __init__(self, start, stop, step):
        if isinstance(step, SymInt):
            step = ctx().concretize(step)
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")
        self.start, self.stop, self.step = start, stop, step

    def sx_len(self):
        if self.step == 1:
            n = self.stop - self.start
        elif self.step > 0:
            n = (self.stop - self.start + self.step - 1) // self.step
        else:
            n = (self.start - self.stop - self.step - 1) // (-self.step)
        return n if n > 0 else 0

    def __len__(self):
        return ctx().concretize(self.sx_len())

    def __iter__(self):
        i = self.start
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step

    def __reversed__(self):
        n = self.sx_len()
        k = n - 1
        while k >= 0:
            yield self.start + k * self.step
            k = k - 1

    def __contains__(self, x):
        if self.step == 1:
            return bool(And(x >= self.start, x < self.stop))
        if self.step == -1:
            return bool(And(x <= self.start, x > self.stop))
        return any(bool(v == x) for v in self)

    def __getitem__(self, i):
        n = self.sx_len()
        if isinstance(i, slice):
            return list(self)[i]
        if i < 0:
            i = i + n
        if Or(i < 0, i >= n):
            raise IndexError("range object index out of range")
        return self.start + i * self.step

    def __bool__(self):
        return bool(self.sx_len() > 0)


def sx_range(*a):
    if len(a) == 1:
        s, e, st = 0, a[0], 1
    elif len(a) == 2:
        s, e, st = a[0], a[1], 1
    else:
        s, e, st = a
    conv = []
    for v in (s, e, st):
        if not isinstance(v, (int, SymInt)):
            from .seq import sx_index
            v = sx_index(v)
        conv.append(v)
    if not any(isinstance(v, SymInt) for v in conv):
        return range(*conv)
    return SxRange(*conv)
