"""Core of the symbolic executor: path exploration, linear-integer terms, booleans.

Exploration is by re-execution: a path is a sequence of decisions (the trail).  A forward run
follows the current solver model without asking the solver; when the run ends, the deepest
decision with an unexplored alternative is flipped and the solver is asked whether the flipped
path condition is satisfiable.  Every check(cond) is a solver query on the negated condition.
"""
import time
from math import gcd
import z3


class Control(BaseException):
    """Engine control flow; never caught by the code under test."""


class Abandon(Control):
    """The current path is infeasible (an assumption cannot hold)."""


class CheckFailed(Control):
    """A property assertion can fail on this path."""

    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class Unsupported(Control):
    """The executor cannot encode an operation."""


class DepthLimit(Control):
    pass


class Deadline(Control):
    pass


class EngineError(Control):
    """Internal inconsistency of the executor (e.g. a non-deterministic re-execution)."""


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# --------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "name", "kind", "args", "zexpr", "zdecl")

    def __init__(self, id, name, kind, args, zexpr):
        self.id, self.name, self.kind, self.args, self.zexpr = id, name, kind, args, zexpr
        self.zdecl = zexpr.decl() if kind == "var" else None


class Entry:
    __slots__ = ("kind", "key", "val", "alt", "pushed", "n", "payload")

    def __init__(self, kind, key=None, val=None, alt=False, pushed=False, n=0, payload=None):
        self.kind, self.key, self.val, self.alt = kind, key, val, alt
        self.pushed, self.n, self.payload = pushed, n, payload


class Ctx:
    def __init__(self, seed=1, max_depth=4000, deadline=None, query_timeout_ms=20000):
        self.solver = z3.Solver()
        self.solver.set("random_seed", seed)
        self.solver.set("timeout", query_timeout_ms)
        self.trail = []
        self.pos = 0
        self.known = {}
        self.bounds = {}
        self.atoms = []          # by id
        self.atom_key = {}
        self.zcache = {}
        self.zmodel = None
        self.mv = {}
        self.max_depth = max_depth
        self.deadline = deadline
        # statistics
        self.queries = 0
        self.solver_time = 0.0
        self.unknown = 0
        self.discharged = 0       # checks decided by the solver (unsat when negated)
        self.discharged_trivial = 0
        self.transitions = 0
        self.confirmed = 0        # conditions decided by propagation and confirmed by the solver
        self.confirm_time = 0.0
        self.folded = []
        self.pins = []
        self.functions = set()
        # per path
        self.inputs = {}          # name -> value (SymInt/int) in creation order
        self.notes = []
        self.path_unknown = False
        self.counter = 0
        self.in_model_eval = False

    # ------------------------------------------------------------------ path life cycle
    def start_path(self):
        self.pos = 0
        self.known = {}
        self.bounds = {}
        self.inputs = {}
        self.notes = []
        self.path_unknown = False
        self.counter = 0
        self.folded = []

    def confirm(self):
        """One query per path: everything propagation decided on its new part follows from the path condition."""
        keys = [k for k in dict.fromkeys(self.folded) if k[0] != "const"]
        self.folded = []
        if not keys:
            return True
        t = time.time()
        zs = [self.zbool(k) for k in keys]
        self.solver.push()
        self.solver.add(z3.Not(z3.And(*zs)) if len(zs) > 1 else z3.Not(zs[0]))
        self.queries += 1
        r = self.solver.check()
        self.solver.pop()
        dt = time.time() - t
        self.solver_time += dt
        self.confirm_time += dt
        if r == z3.sat:
            raise EngineError("propagation decided a condition the path condition does not imply")
        if r == z3.unsat:
            self.confirmed += len(keys)
        return r == z3.unsat

    def backtrack(self):
        """Advance to the next unexplored path; False when the exploration is complete."""
        while self.trail:
            e = self.trail.pop()
            if e.pushed:
                self.solver.pop()
            if e.kind == "b" and e.alt:
                e.alt = False
                e.val = not e.val
                self.solver.push()
                self.solver.add(self.zbool(e.key) if e.val else z3.Not(self.zbool(e.key)))
                r = self._check()
                if r == z3.sat:
                    e.pushed = True
                    self.trail.append(e)
                    return True
                self.solver.pop()
                if r == z3.unknown:
                    self.unknown += 1
            elif e.kind == "c" and e.val + 1 < e.n:
                e.val += 1
                self.solver.push()
                e.pushed = True
                self.trail.append(e)
                return True
        return False

    def _check(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Deadline()
        t = time.time()
        self.queries += 1
        r = self.solver.check()
        self.solver_time += time.time() - t
        if r == z3.sat:
            self.zmodel = self.solver.model()
            self.mv = {}
        return r

    # ------------------------------------------------------------------ atoms
    def _new_atom(self, key, name, kind, args, zexpr):
        a = Atom(len(self.atoms), name, kind, args, zexpr)
        self.atoms.append(a)
        self.atom_key[key] = a
        return a

    def var(self, name, lo=None, hi=None):
        """A named symbolic integer (an input of the harness or a fresh unknown)."""
        key = ("var", name)
        a = self.atom_key.get(key)
        if a is None:
            a = self._new_atom(key, name, "var", None, z3.Int(name))
        if a.id in self.bounds:
            raise EngineError("input %s created twice on one path" % name)
        self.bounds[a.id] = (lo, hi)
        cs = []
        if lo is not None:
            cs.append(a.zexpr >= lo)
        if hi is not None:
            cs.append(a.zexpr <= hi)
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            self.pos += 1
            if e.kind != "v" or e.key != name:
                raise EngineError("non-deterministic replay at %s (%s,%s)" % (name, e.kind, e.key))
        else:
            for c in cs:
                self.solver.add(c)
            self.trail.append(Entry("v", name))
            self.pos += 1
            v = 0
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
            # a fresh variable is unconstrained by the current model
            # (values derived from it may remain from another path)
            self.mv = {i: x for i, x in self.mv.items() if self.atoms[i].kind == "var"}
            self.mv[a.id] = v
            if self.zmodel is not None and lo is not None and hi is not None and lo > hi:
                raise Abandon()
        return SymInt(((a.id, 1),), 0)

    def fresh(self, prefix, lo=None, hi=None):
        self.counter += 1
        return self.var("%s!%d" % (prefix, self.counter), lo, hi)

    def defined(self, kind, args, zfn, lo=None, hi=None):
        key = (kind, args)
        a = self.atom_key.get(key)
        if a is None:
            a = self._new_atom(key, kind, kind, args, zfn())
        if a.id not in self.bounds:
            self.bounds[a.id] = (lo, hi)
        return SymInt(((a.id, 1),), 0)

    def eval_atom(self, aid):
        v = self.mv.get(aid)
        if v is not None:
            return v
        a = self.atoms[aid]
        if a.kind == "var":
            v = None
            if self.zmodel is not None:
                i = self.zmodel.get_interp(a.zdecl)
                if i is not None:
                    v = i.as_long()
            if v is None:
                lo, hi = self.bounds.get(aid, (None, None))
                v = 0
                if lo is not None and v < lo:
                    v = lo
                if hi is not None and v > hi:
                    v = hi
        elif a.kind == "div":
            v = self.eval_lin(a.args[0], a.args[1]) // a.args[2]
        elif a.kind == "ite":
            c, x, y = a.args
            v = self.eval_lin(*x) if self.eval_key(c) else self.eval_lin(*y)
        elif a.kind == "mul":
            v = self.eval_lin(*a.args[0]) * self.eval_lin(*a.args[1])
        else:
            raise AssertionError(a.kind)
        self.mv[aid] = v
        return v

    def eval_lin(self, terms, c):
        for aid, k in terms:
            c += k * self.eval_atom(aid)
        return c

    def eval_key(self, key):
        op = key[0]
        if op == "le":
            return self.eval_lin(key[1], key[2]) <= 0
        if op == "eq":
            return self.eval_lin(key[1], key[2]) == 0
        if op == "ne":
            return self.eval_lin(key[1], key[2]) != 0
        if op == "and":
            return all(self.eval_key(k) for k in key[1])
        if op == "or":
            return any(self.eval_key(k) for k in key[1])
        if op == "const":
            return key[1]
        raise AssertionError(op)

    def zlin(self, terms, c):
        parts = []
        for aid, k in terms:
            z = self.atoms[aid].zexpr
            parts.append(z if k == 1 else k * z)
        if c or not parts:
            parts.append(z3.IntVal(c))
        return parts[0] if len(parts) == 1 else z3.Sum(parts)

    def zbool(self, key):
        z = self.zcache.get(key)
        if z is not None:
            return z
        op = key[0]
        if op == "le":
            z = self.zlin(key[1], 0) <= -key[2]
        elif op == "eq":
            z = self.zlin(key[1], 0) == -key[2]
        elif op == "ne":
            z = self.zlin(key[1], 0) != -key[2]
        elif op == "and":
            z = z3.And([self.zbool(k) for k in key[1]])
        elif op == "or":
            z = z3.Or([self.zbool(k) for k in key[1]])
        elif op == "const":
            z = z3.BoolVal(key[1])
        else:
            raise AssertionError(op)
        self.zcache[key] = z
        return z

    # ------------------------------------------------------------------ bounds and folding
    def lin_bounds(self, terms, c):
        lo = hi = c
        for aid, k in terms:
            l, h = self.bounds.get(aid, (None, None))
            if k < 0:
                l, h = h, l
            lo = None if (lo is None or l is None) else lo + k * l
            hi = None if (hi is None or h is None) else hi + k * h
            if lo is None and hi is None:
                return None, None
        return lo, hi

    def fold(self, key):
        """True / False when the condition is decided syntactically, else None."""
        k = self.known.get(key)
        if k is not None:
            return k
        op = key[0]
        if op == "le":
            lo, hi = self.lin_bounds(key[1], key[2])
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
            return None
        if op == "eq" or op == "ne":
            lo, hi = self.lin_bounds(key[1], key[2])
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return op == "ne"
            if lo is not None and lo == hi:
                return (lo == 0) == (op == "eq")
            # known strict order decides disequality
            k1 = self.known.get(("le", key[1], key[2] + 1))        # t+1<=0
            if k1:
                return op == "ne"
            neg = tuple((a, -x) for a, x in key[1])
            k2 = self.known.get(("le", neg, -key[2] + 1))
            if k2:
                return op == "ne"
            return None
        if op == "and":
            for k in key[1]:
                f = self.fold(k)
                if f is False:
                    return False
                if f is None:
                    return None
            return True
        if op == "or":
            for k in key[1]:
                f = self.fold(k)
                if f is True:
                    return True
                if f is None:
                    return None
            return False
        if op == "const":
            return key[1]
        return None

    def learn(self, key, val):
        self.known[key] = val
        nk = neg_key(key)
        self.known[nk] = not val
        k = key if val else nk
        op = k[0]
        if op == "le":
            terms = k[1]
            if len(terms) == 1:
                aid, co = terms[0]
                lo, hi = self.bounds.get(aid, (None, None))
                # co*x + c <= 0
                if co > 0:
                    b = (-k[2]) // co
                    if hi is None or b < hi:
                        self.bounds[aid] = (lo, b)
                else:
                    b = -((-k[2]) // (-co))   # ceil(c / -co)
                    b = -(-k[2] // -co)
                    if lo is None or b > lo:
                        self.bounds[aid] = (b, hi)
        elif op == "eq":
            terms = k[1]
            if len(terms) == 1:
                aid, co = terms[0]
                if k[2] % co == 0:
                    v = -k[2] // co
                    self.bounds[aid] = (v, v)
            neg = tuple((a, -x) for a, x in terms)
            self.known[("le", terms, k[2])] = True
            self.known[("le", neg, -k[2])] = True
        elif op == "and":
            for s in k[1]:
                self.learn(s, True)

    # ------------------------------------------------------------------ decisions
    def _depth(self):
        if len(self.trail) > self.max_depth:
            raise DepthLimit()
        if self.deadline is not None and (len(self.trail) & 63) == 0 and time.time() > self.deadline:
            raise Deadline()

    def branch(self, key, payload=None):
        f = self.fold(key)
        if f is not None:
            if self.pos >= len(self.trail):
                self.folded.append(key if f else neg_key(key))
            return f
        self.transitions += 1
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            self.pos += 1
            if e.kind != "b" or e.key != key:
                raise EngineError("non-deterministic replay: %s %r vs %r" % (e.kind, e.key, key))
            self.learn(key, e.val)
            return e.val
        self._depth()
        val = self.eval_key(key)
        self.solver.push()
        self.solver.add(self.zbool(key if val else neg_key(key)))
        self.trail.append(Entry("b", key, val, True, True, payload=payload))
        self.pos += 1
        self.learn(key, val)
        return val

    def choose(self, n, name=None):
        """A finite shape decision (0..n-1)."""
        if n == 1:
            return 0
        self.transitions += 1
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            self.pos += 1
            if e.kind != "c" or e.n != n:
                raise EngineError("non-deterministic replay (choose)")
            return e.val
        self._depth()
        self.solver.push()
        self.trail.append(Entry("c", name, 0, True, True, n=n))
        self.pos += 1
        return 0

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Abandon()
        key = cond.key
        f = self.fold(key)
        if f is True:
            return
        if f is False:
            raise Abandon()
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            self.pos += 1
            if e.kind != "a" or e.key != key:
                raise EngineError("non-deterministic replay (assume)")
            self.learn(key, True)
            return
        self._depth()
        self.solver.push()
        self.solver.add(self.zbool(key))
        e = Entry("a", key, True, False, True)
        self.trail.append(e)
        self.pos += 1
        if not self.eval_key(key):
            r = self._check()
            if r == z3.unsat:
                raise Abandon()
            if r == z3.unknown:
                self.unknown += 1
                raise Abandon()
        self.learn(key, True)

    def check(self, cond, msg):
        """Property assertion: must hold for every value on this path."""
        if isinstance(cond, SymBool):
            key = cond.key
        else:
            if not isinstance(cond, bool):
                cond = bool(cond)
            if cond:
                if self.pos >= len(self.trail):
                    self.discharged_trivial += 1
                return
            raise CheckFailed(msg)
        f = self.fold(key)
        if f is True:
            if self.pos >= len(self.trail):
                self.discharged_trivial += 1
                self.folded.append(key)
            return
        if f is False:
            raise CheckFailed(msg)
        if self.pos < len(self.trail):
            # decided on an earlier run with the same prefix, unless the prefix forks here
            e = self.trail[self.pos]
            if e.kind == "b" and e.key == key and e.payload == "check":
                self.pos += 1
                self.learn(key, e.val)
                if not e.val:
                    raise CheckFailed(msg)
                return
            self.learn(key, True)
            return
        nk = neg_key(key)
        self.solver.push()
        self.solver.add(self.zbool(nk))
        if not self.eval_key(key):
            r = z3.sat
        else:
            old = (self.zmodel, self.mv)
            r = self._check()
            if r != z3.sat:
                self.zmodel, self.mv = old
        if r == z3.unsat:
            self.solver.pop()
            self.discharged += 1
            self.learn(key, True)
            return
        if r == z3.unknown:
            self.solver.pop()
            self.unknown += 1
            self.path_unknown = True
            self.learn(key, True)
            return
        self.trail.append(Entry("b", key, False, True, True, payload="check"))
        self.pos += 1
        raise CheckFailed(msg)

    def concretize(self, x, limit=40):
        """Fork over all values of x (used where CPython needs a machine integer)."""
        if not isinstance(x, SymInt):
            return x
        n = 0
        while True:
            lo, hi = self.lin_bounds(x.terms, x.c)
            if lo is not None and lo == hi:
                return lo
            # recorded value on replay
            if self.pos < len(self.trail):
                e = self.trail[self.pos]
                v = e.payload
                if e.kind == "p":
                    self.pos += 1
                    self.learn(e.key, True)
                    return v
                if not isinstance(v, int) or e.kind != "b":
                    raise EngineError("non-deterministic replay (concretize)")
            else:
                v = self.eval_lin(x.terms, x.c)
            if n >= limit:
                return self.pin(x, "concretize")
            eq = x == v
            if eq is True:
                return v
            if self.pos >= len(self.trail) and self.fold(eq.key) is True:
                self.trail.append(Entry("p", eq.key, True, False, False, payload=v))
                self.pos += 1
                return v
            if self.branch(eq.key, payload=v):
                return v
            n += 1

    def pin(self, x, why):
        """Fix x to its model value without exploring alternatives (makes the run incomplete)."""
        if not isinstance(x, SymInt):
            return x
        lo, hi = self.lin_bounds(x.terms, x.c)
        if lo is not None and lo == hi:
            return lo
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != "p":
                raise EngineError("non-deterministic replay (pin)")
            self.pos += 1
            self.learn(e.key, True)
            return e.payload
        v = self.eval_lin(x.terms, x.c)
        key = (x == v)
        if key is True:
            return v
        key = key.key
        self.pins.append(why)
        self.solver.push()
        self.solver.add(self.zbool(key))
        self.trail.append(Entry("p", key, True, False, True, payload=v))
        self.pos += 1
        self.learn(key, True)
        return v

    # ------------------------------------------------------------------ models
    def value(self, x):
        """Concrete value of a symbolic value under the current model."""
        if isinstance(x, SymInt):
            return self.eval_lin(x.terms, x.c)
        if isinstance(x, SymBool):
            return self.eval_key(x.key)
        return x


def neg_key(key):
    op = key[0]
    if op == "le":
        return ("le", tuple((a, -k) for a, k in key[1]), -key[2] + 1)
    if op == "eq":
        return ("ne", key[1], key[2])
    if op == "ne":
        return ("eq", key[1], key[2])
    if op == "and":
        return ("or", tuple(neg_key(k) for k in key[1]))
    if op == "or":
        return ("and", tuple(neg_key(k) for k in key[1]))
    if op == "const":
        return ("const", not key[1])
    raise AssertionError(op)


# ------------------------------------------------------------------------------------ booleans
class Sym:
    """Base class of all symbolic values."""
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, proto):
        raise Unsupported("native pickling of a symbolic value")


class SymBool(Sym):
    __slots__ = ("key",)
    sx_type = bool

    def __init__(self, key):
        self.key = key

    def __bool__(self):
        return CTX.branch(self.key)

    def __invert__(self):
        return -2 if bool(self) else -1

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)):
            return And(self, o)
        return int(bool(self)) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)):
            return Or(self, o)
        return int(bool(self)) | o
    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return Or(And(self, o), And(Not(self), Not(o)))
        if isinstance(o, bool):
            return self if o else Not(self)
        if isinstance(o, (int, float, SymInt)):
            return int(bool(self)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def _i(self):
        return int(bool(self))

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __xor__(self, o): return self != o
    __rxor__ = __xor__

    def __repr__(self):
        return "<symbool>"


def _simp(key):
    return SymBool(key)


def mkcmp(op, terms, c):
    if not terms:
        return (c <= 0) if op == "le" else (c == 0) if op == "eq" else (c != 0)
    g = 0
    for _, k in terms:
        g = gcd(g, k)
    if g > 1:
        if op == "le":
            # g*t + c <= 0  <=>  t <= floor(-c/g)
            terms = tuple((a, k // g) for a, k in terms)
            c = -((-c) // g)
        else:
            if c % g:
                return op == "ne"
            terms = tuple((a, k // g) for a, k in terms)
            c //= g
    if op != "le" and terms[0][1] < 0:
        terms = tuple((a, -k) for a, k in terms)
        c = -c
    return SymBool((op, terms, c))


def Not(x):
    if isinstance(x, SymBool):
        return SymBool(neg_key(x.key))
    return not x


def And(*xs):
    ks = []
    for x in xs:
        if isinstance(x, SymBool):
            if x.key[0] == "and":
                ks.extend(x.key[1])
            else:
                ks.append(x.key)
        elif not x:
            return False
    if not ks:
        return True
    ks = tuple(dict.fromkeys(ks))
    return SymBool(ks[0]) if len(ks) == 1 else SymBool(("and", ks))


def Or(*xs):
    ks = []
    for x in xs:
        if isinstance(x, SymBool):
            if x.key[0] == "or":
                ks.extend(x.key[1])
            else:
                ks.append(x.key)
        elif x:
            return True
    if not ks:
        return False
    ks = tuple(dict.fromkeys(ks))
    return SymBool(ks[0]) if len(ks) == 1 else SymBool(("or", ks))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return And(Or(Not(a), b), Or(Not(b), a))
    return bool(a) == bool(b)


def Ite(c, a, b):
    """Integer if-then-else without forking."""
    if not isinstance(c, SymBool):
        return a if c else b
    f = CTX.fold(c.key)
    if f is not None:
        return a if f else b
    if a is b:
        return a
    la, lb = _lin(a), _lin(b)
    if la is None or lb is None:
        return a if c else b
    if la == lb:
        return a
    lo1, hi1 = CTX.lin_bounds(*la)
    lo2, hi2 = CTX.lin_bounds(*lb)
    lo = None if lo1 is None or lo2 is None else min(lo1, lo2)
    hi = None if hi1 is None or hi2 is None else max(hi1, hi2)
    C = CTX
    return C.defined("ite", (c.key, la, lb),
                     lambda: z3.If(C.zbool(c.key), C.zlin(*la), C.zlin(*lb)), lo, hi)


# ------------------------------------------------------------------------------------ integers
def _lin(x):
    if isinstance(x, SymInt):
        return (x.terms, x.c)
    if isinstance(x, int):        # includes bool
        return ((), int(x))
    if isinstance(x, SymBool):
        return ((), int(bool(x)))
    return None


def _mk(terms, c):
    if not terms:
        return c
    return SymInt(terms, c)


def _addlin(a, b, sign=1):
    if not b[0]:
        return a[0], a[1] + sign * b[1]
    d = dict(a[0])
    for aid, k in b[0]:
        v = d.get(aid, 0) + sign * k
        if v:
            d[aid] = v
        else:
            d.pop(aid, None)
    return tuple(sorted(d.items())), a[1] + sign * b[1]


class SymInt(Sym):
    __slots__ = ("terms", "c")
    sx_type = int

    def __init__(self, terms, c):
        self.terms = terms
        self.c = c

    # arithmetic ---------------------------------------------------------------
    def __add__(self, o):
        if isinstance(o, float):
            return SymFloat(self, 1) + o
        l = _lin(o)
        if l is None:
            return NotImplemented
        return _mk(*_addlin((self.terms, self.c), l))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float):
            return SymFloat(self, 1) - o
        l = _lin(o)
        if l is None:
            return NotImplemented
        return _mk(*_addlin((self.terms, self.c), l, -1))

    def __rsub__(self, o):
        l = _lin(o)
        if l is None:
            return NotImplemented
        return _mk(*_addlin(l, (self.terms, self.c), -1))

    def __neg__(self):
        return SymInt(tuple((a, -k) for a, k in self.terms), -self.c)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, bytearray)):
            return o * CTX.concretize(self)
        if isinstance(o, float):
            return SymFloat(self, 1) * o
        l = _lin(o)
        if l is None:
            return NotImplemented
        if not l[0]:
            k = l[1]
            if k == 0:
                return 0
            return SymInt(tuple((a, x * k) for a, x in self.terms), self.c * k)
        a, b = sorted([(self.terms, self.c), l])
        C = CTX
        return C.defined("mul", (a, b), lambda: C.zlin(*a) * C.zlin(*b))
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, SymInt):
            o = CTX.concretize(o)
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return (-self) // (-o)
        return divk(self, o)

    def __rfloordiv__(self, o):
        return o // CTX.concretize(self)

    def __mod__(self, o):
        if isinstance(o, SymInt):
            o = CTX.concretize(o)
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return self - o * (self // o)

    def __rmod__(self, o):
        return o % CTX.concretize(self)

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __rdivmod__(self, o):
        return divmod(o, CTX.concretize(self))

    def __truediv__(self, o):
        if isinstance(o, SymInt):
            o = CTX.concretize(o)
        return SymFloat(self, 1) / o

    def __rtruediv__(self, o):
        return o / CTX.concretize(self)

    def __pow__(self, o):
        return CTX.concretize(self) ** (CTX.concretize(o))

    def __rpow__(self, o):
        return o ** CTX.concretize(self)

    def __lshift__(self, o):
        return self * (1 << CTX.concretize(o))

    def __rlshift__(self, o):
        return o << CTX.concretize(self)

    def __rshift__(self, o):
        return self // (1 << CTX.concretize(o))

    def __rrshift__(self, o):
        return o >> CTX.concretize(self)

    def __and__(self, o):
        if isinstance(o, SymInt):
            o = CTX.concretize(o)
        if o == 0:
            return 0
        if o > 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        if o < 0 and (-o & (-o - 1)) == 0:      # ~mask of low bits
            return self - self % (-o)
        return CTX.concretize(self) & o
    __rand__ = __and__

    def __or__(self, o):
        return CTX.concretize(self) | CTX.concretize(o)
    __ror__ = __or__

    def __xor__(self, o):
        return CTX.concretize(self) ^ CTX.concretize(o)
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    # comparisons --------------------------------------------------------------
    def __eq__(self, o):
        if isinstance(o, float):
            return SymFloat(self, 1) == o
        l = _lin(o)
        if l is None:
            return NotImplemented
        return mkcmp("eq", *_addlin((self.terms, self.c), l, -1))

    def __ne__(self, o):
        if isinstance(o, float):
            return SymFloat(self, 1) != o
        l = _lin(o)
        if l is None:
            return NotImplemented
        return mkcmp("ne", *_addlin((self.terms, self.c), l, -1))

    def __le__(self, o):
        if isinstance(o, float):
            return SymFloat(self, 1) <= o
        l = _lin(o)
        if l is None:
            return NotImplemented
        return mkcmp("le", *_addlin((self.terms, self.c), l, -1))

    def __lt__(self, o):
        if isinstance(o, float):
            return SymFloat(self, 1) < o
        l = _lin(o)
        if l is None:
            return NotImplemented
        t, c = _addlin((self.terms, self.c), l, -1)
        return mkcmp("le", t, c + 1)

    def __ge__(self, o):
        if isinstance(o, float):
            return SymFloat(self, 1) >= o
        l = _lin(o)
        if l is None:
            return NotImplemented
        return mkcmp("le", *_addlin(l, (self.terms, self.c), -1))

    def __gt__(self, o):
        if isinstance(o, float):
            return SymFloat(self, 1) > o
        l = _lin(o)
        if l is None:
            return NotImplemented
        t, c = _addlin(l, (self.terms, self.c), -1)
        return mkcmp("le", t, c + 1)

    # conversions --------------------------------------------------------------
    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else CTX.branch(r.key)

    def __index__(self):
        return CTX.concretize(self)

    def __int__(self):
        return CTX.concretize(self)

    def __float__(self):
        return float(CTX.concretize(self))

    def __hash__(self):
        return hash(CTX.concretize(self))

    def bit_length(self):
        return CTX.concretize(self).bit_length()

    def to_bytes(self, *a, **k):
        from .seq import int_to_bytes
        return int_to_bytes(self, *a, **k)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def __repr__(self):
        return "<symint>"

    def __format__(self, spec):
        return format(CTX.concretize(self), spec)


def divk(x, k):
    """Floor division of a linear term by a positive constant."""
    if isinstance(x, int):
        return x // k
    if k == 1:
        return x
    q = []
    r = []
    for a, co in x.terms:
        if co % k == 0:
            q.append((a, co // k))
        else:
            r.append((a, co))
    cq, cr = divmod(x.c, k)
    base = _mk(tuple(q), cq)
    if not r:
        return base
    rt = tuple(r)
    C = CTX
    lo, hi = C.lin_bounds(rt, cr)
    lo2 = None if lo is None else lo // k
    hi2 = None if hi is None else hi // k
    if lo2 is not None and lo2 == hi2:
        return base + lo2
    d = C.defined("div", (rt, cr, k), lambda: C.zlin(rt, cr) / k, lo2, hi2)
    return d + base


class SymFloat(Sym):
    """A float of the form n / 2**k with n a symbolic integer (exact)."""
    __slots__ = ("num", "den")
    sx_type = float

    def __init__(self, num, den=1):
        self.num, self.den = num, den

    @staticmethod
    def _co(o):
        if isinstance(o, SymFloat):
            return o.num, o.den
        if isinstance(o, (int, SymInt)):
            return o, 1
        if isinstance(o, SymBool):
            return int(bool(o)), 1
        if isinstance(o, float):
            if o != o or o in (float("inf"), float("-inf")):
                return None
            n, d = o.as_integer_ratio()
            return n, d
        return None

    def _cmp(self, o, f, special):
        c = self._co(o)
        if c is None:
            if isinstance(o, float):
                return special(0.0, o)
            return NotImplemented
        return f(self.num * c[1], c[0] * self.den)

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def _ar(self, o, f):
        c = self._co(o)
        if c is None:
            return NotImplemented
        return f(self.num, self.den, c[0], c[1])

    def __add__(self, o): return self._ar(o, lambda a, b, c, d: SymFloat(a * d + c * b, b * d))
    __radd__ = __add__
    def __sub__(self, o): return self._ar(o, lambda a, b, c, d: SymFloat(a * d - c * b, b * d))
    def __rsub__(self, o): return self._ar(o, lambda a, b, c, d: SymFloat(c * b - a * d, b * d))
    def __mul__(self, o): return self._ar(o, lambda a, b, c, d: SymFloat(a * c, b * d))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._co(o)
        n = CTX.concretize(o[0])
        if n == 0:
            raise ZeroDivisionError("float division by zero")
        if n < 0:
            return SymFloat(-self.num * o[1], self.den * -n)
        return SymFloat(self.num * o[1], self.den * n)

    def __neg__(self):
        return SymFloat(-self.num, self.den)

    def __abs__(self):
        return self if self >= 0 else -self

    def trunc(self):
        q = divk(self.num, self.den) if not isinstance(self.num, int) else self.num // self.den
        if self.num >= 0:
            return q
        return -((-self.num) // self.den)

    def __bool__(self):
        return bool(self.num != 0)

    def concrete(self):
        return CTX.concretize(self.num) / self.den

    def __float__(self):
        return self.concrete()

    def __int__(self):
        return int(self.concrete())

    def __hash__(self):
        return hash(self.concrete())

    def __repr__(self):
        return "<symfloat>"


def is_sym(x):
    return isinstance(x, Sym)
