"""re: a backtracking matcher over strings of symbolic characters; native on concrete strings."""
import re
try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:                                   # pragma: no cover
    import sre_parse
    import sre_constants as sc
from ..core import Sym, SymInt, And, Or, Not, Unsupported, ctx
from ..seq import SymStr, View, Ch, TextBase, FillBase, generic_char, GENERIC_MAX, same, in_ranges, pred_ranges, _ws_ranges
from ..rt import FmtBase

SAMPLES = [ord(generic_char(i)) for i in (0, 5, 20000, 21000, 27500, 27600, 30000, GENERIC_MAX - 1)]
_word = None


def word_ranges():
    global _word
    if _word is None:
        r = []
        for c in range(0x110000):
            s = chr(c)
            if s.isalnum() or s == "_":
                if r and r[-1][1] == c - 1:
                    r[-1][1] = c
                else:
                    r.append([c, c])
        _word = [tuple(x) for x in r]
    return _word


def cat(code, av, ascii_):
    name = str(av)
    neg = "_NOT_" in name
    if "DIGIT" in name:
        rs = [(48, 57)] if ascii_ else pred_ranges("isdecimal")
    elif "SPACE" in name:
        rs = [(9, 13), (32, 32)] if ascii_ else _ws_ranges()
    elif "WORD" in name:
        rs = [(48, 57), (65, 90), (95, 95), (97, 122)] if ascii_ else word_ranges()
    else:
        raise Unsupported("regex category %s" % name)
    c = in_ranges(code, rs) if isinstance(code, SymInt) else any(lo <= code <= hi for lo, hi in rs)
    return Not(c) if neg else c


class Single:
    """A one-character test."""

    def __init__(self, op, av, flags):
        self.op, self.av = op, av
        self.flags = flags

    def test(self, code):
        op, av = self.op, self.av
        if op is sc.LITERAL:
            return code == av
        if op is sc.NOT_LITERAL:
            return Not(code == av)
        if op is sc.ANY:
            return True if self.flags & re.DOTALL else Not(code == 10)
        neg = False
        conds = []
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                conds.append(code == a)
            elif o is sc.RANGE:
                conds.append(And(code >= a[0], code <= a[1]))
            elif o is sc.CATEGORY:
                conds.append(cat(code, a, self.flags & re.ASCII))
            else:
                raise Unsupported("regex class")
        c = Or(*conds)
        return Not(c) if neg else c

    def elem(self, e):
        """Test one element: a code or a view."""
        if isinstance(e, View):
            b = e.base
            if isinstance(b, FillBase):
                return bool(self.test(ord(b.ch)))
            if isinstance(b, FmtBase):
                if b.kind == "int":
                    r = {bool(self.test(ord(c))) for c in "0123456789-"}
                    if len(r) == 1:
                        return r.pop()
                raise Unsupported("regex on formatted text")
            r = {bool(self.test(c)) for c in SAMPLES}
            if len(r) != 1:
                raise Unsupported("regex distinguishes generic characters")
            return r.pop()
        return bool(self.test(e))


class M:
    """Compiled form: list of (op, ...) nodes, matched with continuation passing."""

    def __init__(self, pattern, flags):
        tree = sre_parse.parse(pattern, flags)
        self.flags = tree.state.flags if hasattr(tree, "state") else tree.pattern.flags
        if self.flags & re.IGNORECASE:
            raise Unsupported("case-insensitive regex on a symbolic string")
        self.groups = (tree.state.groups if hasattr(tree, "state") else tree.pattern.groups)
        self.groupdict = (tree.state.groupdict if hasattr(tree, "state") else tree.pattern.groupdict)
        self.tree = tree

    def seq(self, items, i, es, p, g):
        """Yield (position, groups) for every way items[i:] match from p."""
        if i == len(items):
            yield p, g
            return
        op, av = items[i]
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            if p < len(es):
                s = Single(op, av, self.flags)
                if s.elem(es[p]):
                    if isinstance(es[p], View):
                        raise Unsupported("regex single character inside generic text")
                    yield from self.seq(items, i + 1, es, p + 1, g)
            return
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT":
            lo, hi, sub = av
            sub = list(sub)
            if len(sub) == 1 and sub[0][0] in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
                s = Single(sub[0][0], sub[0][1], self.flags)
                ends = [p]
                q = p
                n = 0
                views = False

                def step():
                    nonlocal q, n, views
                    if q < len(es) and (hi is sc.MAXREPEAT or n < hi) and s.elem(es[q]):
                        if isinstance(es[q], View):
                            if hi is not sc.MAXREPEAT or lo > 1:
                                raise Unsupported("bounded repeat over generic text")
                            views = True
                        q += 1
                        n += 1
                        return True
                    return False
                if op is sc.MIN_REPEAT:
                    while n < lo:
                        if not step():
                            return
                    while True:
                        yield from self.seq(items, i + 1, es, q, g)
                        if not step():
                            return
                while step():
                    ends.append(q)
                k = len(ends) - 1
                while k >= lo:
                    yield from self.seq(items, i + 1, es, ends[k], g)
                    k -= 1
                return

            def rep(p, g, n):
                if op is sc.MAX_REPEAT and (hi is sc.MAXREPEAT or n < hi):
                    for q, g2 in self.seq(sub, 0, es, p, g):
                        if q == p and n >= lo:
                            continue
                        yield from rep(q, g2, n + 1)
                if n >= lo:
                    yield from self.seq(items, i + 1, es, p, g)
                if op is sc.MIN_REPEAT and (hi is sc.MAXREPEAT or n < hi):
                    for q, g2 in self.seq(sub, 0, es, p, g):
                        if q == p and n >= lo:
                            continue
                        yield from rep(q, g2, n + 1)
            yield from rep(p, g, 0)
            return
        if op is sc.SUBPATTERN:
            gi, addf, delf, sub = av
            if addf or delf:
                raise Unsupported("inline regex flags")
            for q, g2 in self.seq(list(sub), 0, es, p, g):
                g3 = g2 if gi is None else {**g2, gi: (p, q)}
                yield from self.seq(items, i + 1, es, q, g3)
            return
        if op is sc.BRANCH:
            for alt in av[1]:
                for q, g2 in self.seq(list(alt), 0, es, p, g):
                    yield from self.seq(items, i + 1, es, q, g2)
            return
        if op is sc.AT:
            name = str(av)
            if "BEGINNING" in name:
                ok = p == 0 or (self.flags & re.MULTILINE and name == "AT_BEGINNING"
                                and not isinstance(es[p - 1], View) and bool(es[p - 1] == 10))
            elif "END" in name:
                ok = p == len(es)
                if not ok and name == "AT_END":
                    nl = not isinstance(es[p], View) and bool(es[p] == 10)
                    ok = nl and (p == len(es) - 1 or self.flags & re.MULTILINE)
            else:
                raise Unsupported("regex %s" % name)
            if ok:
                yield from self.seq(items, i + 1, es, p, g)
            return
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = av
            if d != 1:
                raise Unsupported("regex lookbehind")
            hit = next(iter(self.seq(list(sub), 0, es, p, g)), None)
            if op is sc.ASSERT_NOT:
                if hit is None:
                    yield from self.seq(items, i + 1, es, p, g)
            elif hit is not None:
                yield from self.seq(items, i + 1, es, p, hit[1])
            return
        raise Unsupported("regex operator %s" % op)

    def at(self, es, p, full=False):
        for q, g in self.seq(list(self.tree), 0, es, p, {}):
            if full and q != len(es):
                continue
            return q, g
        return None


def elements(s):
    return SymStr(SymStr.of(s)).els()


class Match:
    def __init__(self, pat, s, offs, p, q, g):
        self.re, self.string = pat, s
        self._offs, self._p, self._q, self._g = offs, p, q, g
        self.pos = 0

    def span(self, n=0):
        if isinstance(n, str):
            n = self.re._m.groupdict[n]
        if n == 0:
            a, b = self._p, self._q
        elif n in self._g:
            a, b = self._g[n]
        elif n < self.re._m.groups:
            return (-1, -1)
        else:
            raise IndexError("no such group")
        return self._offs[a], self._offs[b]

    def start(self, n=0): return self.span(n)[0]
    def end(self, n=0): return self.span(n)[1]

    def group(self, *ns):
        if not ns:
            ns = (0,)
        r = []
        for n in ns:
            a, b = self.span(n)
            r.append(None if same(a, -1) else (SymStr(SymStr.of(self.string))[a:b] if SymStr.of(self.string) else ""))
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, n): return self.group(n)

    def groups(self, default=None):
        return tuple(default if same(self.span(i)[0], -1) else self.group(i) for i in range(1, self.re._m.groups))

    def groupdict(self, default=None):
        return {k: self.group(v) for k, v in self.re._m.groupdict.items()}

    def __bool__(self): return True


class Pattern:
    def __init__(self, pattern, flags=0):
        self._native = re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self._native.flags
        self._flags = flags
        self._mm = None
        self.groups = self._native.groups

    @property
    def _m(self):
        if self._mm is None:
            self._mm = M(self.pattern, self._flags)
        return self._mm

    def _sym(self, s):
        if isinstance(s, SymStr):
            return True
        if isinstance(s, Sym):
            raise TypeError("expected string or bytes-like object, got %r" % s.sx_type.__name__)
        return False

    def _one(self, s, full, search):
        es, offs = elements(s)
        m = self._m
        for p in range(len(es) + 1 if search else 1):
            r = m.at(es, p, full)
            if r is not None:
                return Match(self, s, offs, p, r[0], r[1])
        return None

    def match(self, s, *a):
        return self._one(s, False, False) if self._sym(s) else self._native.match(s, *a)

    def fullmatch(self, s, *a):
        return self._one(s, True, False) if self._sym(s) else self._native.fullmatch(s, *a)

    def search(self, s, *a):
        return self._one(s, False, True) if self._sym(s) else self._native.search(s, *a)

    def finditer(self, s, *a):
        if not self._sym(s):
            yield from self._native.finditer(s, *a)
            return
        es, offs = elements(s)
        p = 0
        while p <= len(es):
            r = self._m.at(es, p)
            if r is None:
                p += 1
                continue
            yield Match(self, s, offs, p, r[0], r[1])
            p = r[0] if r[0] > p else p + 1

    def findall(self, s, *a):
        if not self._sym(s):
            return self._native.findall(s, *a)
        out = []
        for m in self.finditer(s):
            g = m.groups("")
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out

    def sub(self, repl, s, count=0):
        if not self._sym(s):
            return self._native.sub(repl, s, count)
        if isinstance(repl, str) and "\\" in repl:
            raise Unsupported("regex template")
        es, offs = elements(s)
        out = []
        p = 0
        n = 0

        def emit(e):
            out.append(e if isinstance(e, View) else Ch(e) if isinstance(e, SymInt) else chr(e))
        while p <= len(es):
            r = self._m.at(es, p) if not count or n < count else None
            if r is None:
                if p < len(es):
                    emit(es[p])
                p += 1
                continue
            n += 1
            rep = repl if isinstance(repl, (str, SymStr)) else repl(Match(self, s, offs, p, r[0], r[1]))
            out.extend(SymStr.of(rep))
            if r[0] > p:
                p = r[0]
            else:
                if p < len(es):
                    emit(es[p])
                p += 1
        return SymStr.make(out)

    def subn(self, repl, s, count=0):
        raise Unsupported("regex subn")

    def split(self, s, maxsplit=0):
        if not self._sym(s):
            return self._native.split(s, maxsplit)
        out = []
        last = 0
        rope = SymStr(SymStr.of(s))
        for m in self.finditer(s):
            a, b = m.span()
            if a is b:
                raise Unsupported("regex empty split")
            out.append(rope[last:a])
            out.extend(m.groups())
            last = b
        out.append(rope[last:])
        return out

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if isinstance(pattern, SymStr):
        raise Unsupported("symbolic regex")
    k = (pattern, flags)
    if k not in _cache:
        _cache[k] = Pattern(pattern, int(flags))
    return _cache[k]


def install(world, out, resets, module):
    attrs = {n: getattr(re, n) for n in dir(re) if not n.startswith("_")}
    attrs.update(
        compile=compile, Pattern=Pattern, Match=Match,
        match=lambda p, s, flags=0: compile(p, flags).match(s),
        fullmatch=lambda p, s, flags=0: compile(p, flags).fullmatch(s),
        search=lambda p, s, flags=0: compile(p, flags).search(s),
        sub=lambda p, r, s, count=0, flags=0: compile(p, flags).sub(r, s, count),
        split=lambda p, s, maxsplit=0, flags=0: compile(p, flags).split(s, maxsplit),
        findall=lambda p, s, flags=0: compile(p, flags).findall(s),
        finditer=lambda p, s, flags=0: compile(p, flags).finditer(s))
    out["re"] = module("re", **attrs)
