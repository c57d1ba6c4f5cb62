"""C08: Queries return exactly the matching nodes in layer order."""
from lib import attempt

BOUNDS = {"quick": "layers of 3 nodes (every subset of values absent, one node removed before), any 32-bit integer, "
                   "quarter-step float, boolean, string of at most 2 characters, span of a text of 0..1000 characters "
                   "and node reference values; every single predicate, every and/or/not combination of two, queries on "
                   "queries, node lists and node spans; 140 nodes, of which one has any value, with sets of up to 40 values and chains of "
                   "up to 40 predicates",
          "thorough": "as quick with 4 nodes, and combinations of three predicates"}
OUTSIDE = "user functions that fail or are not deterministic; comparing values of types that Python does not compare"
ASSUMPTIONS = ["An absent value equals only None, and satisfies no ordering or span comparison."]

LT = ["<", "<=", ">", ">=", "==", "!="]


def cmp_col(col, op, x):
    if op == "<":
        return col < x
    if op == "<=":
        return col <= x
    if op == ">":
        return col > x
    if op == ">=":
        return col >= x
    if op == "==":
        return col == x
    return col != x


def cmp_val(v, op, x):
    if op == "==":
        return v is not None and v == x
    if op == "!=":
        return v is None or v != x
    if v is None:
        return False
    if op == "<":
        return v < x
    if op == "<=":
        return v <= x
    if op == ">":
        return v > x
    return v >= x


class S:
    def __init__(self, H, n, fields, absent=True, text=None):
        self.H = H
        self.m = m = H.load("docria.model")
        T = m.DataTypes
        doc = m.Document()
        self.t = H.text("t", 0, 1000) if text is None else text
        self.T = doc.add_text("main", self.t)
        self.R = doc.add_layer("ref", k=T.int32(None))
        self.refs = [self.R.add(k=i) for i in range(2)]
        types = {"v": T.int32(None), "w": T.int64(None), "f": T.float64(None), "b": T.bool(None), "s": T.string(None),
                 "sp": T.span("main"), "r": T.noderef("ref")}
        self.L = doc.add_layer("tok", **{k: types[k] for k in fields})
        self.nodes = []
        for i in range(n):
            vals = {}
            for k in fields:
                if not absent or H.bool("has_%s%d" % (k, i)):
                    vals[k] = self.value(k, "%s%d" % (k, i))
            self.nodes.append(self.L.add(**vals))
        self.fields = fields

    def value(self, k, nm):
        H = self.H
        if k == "v":
            return H.int(nm, -2 ** 31, 2 ** 31 - 1)
        if k == "w":
            return H.int(nm, -2 ** 63, 2 ** 63 - 1)
        if k == "f":
            return H.float(nm, -1000, 1000, 4)
        if k == "b":
            return bool(H.bool(nm))
        if k == "s":
            return H.chars(nm, H.choose(nm + "n", [1, 0, 2]))
        if k == "sp":
            a, b = self.rng(nm)
            H.assume(H.And(0 <= a, b <= len(self.t)))
            return self.T[a:b]
        return self.refs[H.choose(nm, [0, 1])]

    def rng(self, nm):
        a, b = self.H.int(nm + "s", 0, 1000), self.H.int(nm + "e", 0, 1000)
        self.H.assume(a <= b)
        return a, b

    def drop(self):
        """remove one node (or none) first"""
        k = self.H.concrete(self.H.int("drop", 0, len(self.nodes)))
        if k < len(self.nodes):
            self.L.remove(self.nodes.pop(k))

    def atom(self, nm, src, kind):
        """(predicate, oracle on a node) for one field comparison; kind = (field, what)"""
        H = self.H
        fld, what = kind
        col = src[fld]
        if what == "none":
            return col.is_none(), lambda n: n.get(fld) is None
        if what == "value":
            return col.has_value(), lambda n: n.get(fld) is not None
        if what == "any":
            xs = [self.value(fld, "%sx%d" % (nm, j)) for j in range(2)]
            return col.is_any(*xs), lambda n: n.get(fld) is not None and (bool(n[fld] == xs[0]) or bool(n[fld] == xs[1]))
        if what == "any0":
            return col.is_any(), lambda n: False
        if what == "anynone":
            return col.is_any(None), lambda n: n.get(fld) is None
        if what == "fn":
            return col.filter(lambda v: v is None), lambda n: n.get(fld) is None
        if what == "str":
            a, b = self.rng(nm)
            s = self.t[a:b]
            return col == s, lambda n: n.get(fld) is not None and str(n[fld]) == s
        if what == "anystr":
            a, b = self.rng(nm)
            s = self.t[a:b]
            return col.is_any("?!", s), lambda n: n.get(fld) is not None and str(n[fld]) == s
        if what == "cov":
            a, b = self.rng(nm)
            return col.covered_by(a, b), lambda n: fld in n and bool(H.And(a <= n[fld].start, n[fld].stop <= b))
        if what == "int":
            a, b = self.rng(nm)
            return col.intersected_by(a, b), lambda n: fld in n and bool(H.And(n[fld].start < b, a < n[fld].stop))
        x = self.value(fld, nm + "x")
        return cmp_col(col, what, x), lambda n: cmp_val(n.get(fld), what, x)

    def same(self, q, want, what):
        H = self.H
        got = [n for n in q]
        H.check(len(got) == len(want), what + ": number of results")
        for x, y in zip(got, want):
            H.check(x is y, what + ": results")
        H.check(len(q) == len(want), what + ": length")
        H.check(q.first() is (want[0] if want else None) and q.last() is (want[-1] if want else None), what + ": ends")
        for f in self.fields:
            c = q[f].to_list()
            H.check(len(c) == len(want), what + ": column length")
            for v, n in zip(c, want):
                H.check((v is None) == (f not in n), what + ": column absent value")
                if v is not None:
                    H.check(H.eq(v, n[f]), what + ": column value")
        l = q.to_list()
        H.check(len(l) == len(want) and all(x is y for x, y in zip(l, want)), what + ": to_list")
        repr(q)


def single(H, n, kind):
    """one predicate on a layer, as a query, and refreshed after changes"""
    s = S(H, n, [kind[0]])
    s.drop()
    p, o = s.atom("p", s.L, kind)
    q = s.L[p]
    want = [x for x in s.nodes if o(x)]
    s.same(q, want, "query")
    H.observe("r", [x.i for x in want])
    # refresh
    then = H.choose("then", ["add", "remove", "change"])
    if then == "add":
        s.nodes.append(s.L.add(**{kind[0]: s.value(kind[0], "new")}))
    elif s.nodes:
        if then == "remove":
            s.L.remove(s.nodes.pop(0))
        else:
            s.nodes[-1][kind[0]] = s.value(kind[0], "new")
    q.update()
    s.same(q, [x for x in s.nodes if o(x)], "refreshed query")


def combine(H, n, a, b, op):
    """and / or / not of two predicates over two fields"""
    s = S(H, n, sorted({a[0], b[0]}))
    pa, oa = s.atom("a", s.L, a)
    pb, ob = s.atom("b", s.L, b)
    if op == "and":
        p, o = pa & pb, lambda x: oa(x) and ob(x)
    elif op == "or":
        p, o = pa | pb, lambda x: oa(x) or ob(x)
    elif op == "nand":
        p, o = ~(pa & pb), lambda x: not (oa(x) and ob(x))
    elif op == "nor":
        p, o = ~(pa | pb), lambda x: not (oa(x) or ob(x))
    elif op == "andnot":
        p, o = pa & ~pb, lambda x: oa(x) and not ob(x)
    elif op == "notor":
        p, o = ~pa | pb, lambda x: not oa(x) or ob(x)
    elif op == "notnot":
        p, o = ~~pa & pb, lambda x: oa(x) and ob(x)
    want = [x for x in s.nodes if o(x)]
    s.same(s.L[p], want, "combined query")
    H.observe("r", [x.i for x in want])


def combine3(H, n, op1, op2):
    s = S(H, n, ["v", "s"])
    pa, oa = s.atom("a", s.L, ("v", "<"))
    pb, ob = s.atom("b", s.L, ("s", "=="))
    pc, oc = s.atom("c", s.L, ("v", "none"))
    p = pa & pb if op1 == "and" else pa | pb
    p = (p & pc) if op2 == "and" else (p | pc) if op2 == "or" else (~p & pc) if op2 == "nand" else (pc | ~p)

    def o(x):
        r = (oa(x) and ob(x)) if op1 == "and" else (oa(x) or ob(x))
        return (r and oc(x)) if op2 == "and" else (r or oc(x)) if op2 == "or" else (not r and oc(x)) if op2 == "nand" \
            else (oc(x) or not r)
    want = [x for x in s.nodes if o(x)]
    s.same(s.L[p], want, "combined query")


def wide(H, n, kind):
    """many nodes, of which one has any value, and sets of many values"""
    s = S(H, 0, ["v", "s", "w"] if kind != "anytext" else ["v", "s", "w", "sp"], text="abc")
    at = H.choose("at", [0, n - 1])
    for i in range(n):
        vs = {} if i % 7 == 3 and i != at else {"v": s.value("v", "v") if i == at else i * 11 % 5, "s": "abc"[i % 3], "w": i}
        if vs and kind == "anytext":
            vs["sp"] = s.T[i % 3:i % 3 + 1]
        s.nodes.append(s.L.add(**vs))
    col = s.L["v"]
    if kind == "any":
        # a set of many values, one of them any
        m = H.choose("m", [5, 40])
        x = H.int("x", -3, 3)
        vals = list(range(100, 99 + m))
        vals.insert(H.choose("xat", [0, m - 1]), x)
        p, o = col.is_any(*vals), lambda k: "v" in k and any(bool(k["v"] == y) for y in vals)
    elif kind == "anytext":
        # many strings, one of them any, among the strings or the texts of the spans
        m = H.choose("m", [5, 40])
        x = H.chars("x", 1)
        vals = ["y%d" % j for j in range(m - 1)]
        vals.insert(H.choose("xat", [0, m - 1]), x)
        f = H.choose("f", ["s", "sp"])
        p, o = s.L[f].is_any(*vals), lambda k: "s" in k and bool(x == k["s"])
    elif kind == "chain":
        # many predicates in a row
        p, m = s.L["w"] != 0, H.choose("m", [10, 40])
        for j in range(1, m):
            p = p & (s.L["w"] != j)
        x = H.int("x", -3, 3)
        p = p | (col == x)
        o = lambda k: "w" not in k or k["w"] >= m or ("v" in k and bool(k["v"] == x))
    else:
        x = H.int("x", -3, 8)
        p, o = cmp_col(col, kind, x), lambda k: cmp_val(k.get("v"), kind, x)
    q = s.L[p]
    want = [k for k in s.nodes if o(k)]
    s.same(q, want, "query on many nodes")
    s.same(q[q["s"] == "b"], [k for k in want if k.get("s") == "b"], "query on the result")
    s.L.remove([k for i, k in enumerate(s.nodes) if i % 2])
    s.nodes = [k for i, k in enumerate(s.nodes) if i % 2 == 0]
    q.update()
    s.same(q, [k for k in s.nodes if o(k)], "refreshed query")


def multi_field(H, n):
    """a filter on several fields gets the values of these fields, None for absent ones"""
    s = S(H, n, ["v", "w"])
    x = H.int("x", -2 ** 31, 2 ** 31 - 1)
    p = s.L.filter("v", "w", fn=lambda v, w: v is not None and (w is None or v + w <= x))
    want = [k for k in s.nodes if "v" in k and ("w" not in k or bool(k["v"] + k["w"] <= x))]
    s.same(s.L[p], want, "filter on two fields")
    s.same(s.L[~p], [k for k in s.nodes if not any(k is y for y in want)], "negated filter on two fields")


def nested(H, n, source, kind):
    """a query on a query, a node list, a node span"""
    s = S(H, n, ["v", kind[0]] if kind[0] != "v" else ["v"])
    x = H.int("x", -2 ** 31, 2 ** 31 - 1)
    if source == "query":
        src = s.L[s.L["v"].filter(lambda v: v is None or v >= x)]
        base = [k for k in s.nodes if "v" not in k or bool(k["v"] >= x)]
    elif source == "list":
        src = s.L[:]
        base = s.nodes
    elif source == "made":
        base = [k for k in s.nodes if "v" not in k or bool(k["v"] >= x)][::-1]
        src = s.m.NodeList(base)
        if not base:
            return
    elif source == "slice":
        src = s.L[1:]
        base = s.nodes[1:]
    elif source == "span":
        src = s.m.NodeSpan(s.nodes[0], s.nodes[-1])
        base = s.nodes
    p, o = s.atom("p", src, kind)
    q = src[p]
    want = [k for k in base if o(k)]
    s.same(q, want, "query on a " + source)
    # once more on the result
    p2, o2 = s.atom("p2", q, ("v", "value"))
    q2 = q[p2]
    s.same(q2, [k for k in want if o2(k)], "query on the result")
    # refresh outer after the inner
    if source == "query" and s.nodes:
        s.L.remove(s.nodes.pop(0))
        src.update()
        q.update()
        s.same(q, [k for k in s.nodes if ("v" not in k or bool(k["v"] >= x)) and o(k)], "refreshed nested query")


def JOBS(tier):
    q = tier == "quick"
    n = 3 if q else 4
    kinds = [(f, op) for f in ("v", "f", "s") for op in LT] + [("w", "<="), ("w", "==")]
    kinds += [("b", "=="), ("b", "!="), ("r", "=="), ("r", "!="), ("r", "any")]
    kinds += [(f, w) for f in ("v", "s", "sp") for w in ("none", "value", "any", "fn")]
    kinds += [("v", "any0"), ("v", "anynone"), ("f", "any")]
    kinds += [("sp", "=="), ("sp", "!="), ("sp", "str"), ("sp", "anystr"), ("sp", "cov"), ("sp", "int")]
    js = [("single", {"n": n - 1 if k[0] == "s" and q else n, "kind": k}) for k in kinds]
    pairs = [(("v", "<"), ("f", ">=")), (("v", "=="), ("sp", "cov")), (("sp", "int"), ("v", "none")),
             (("s", "=="), ("v", ">"))]
    for a, b in pairs:
        for op in ("and", "or", "nand", "nor", "andnot", "notor", "notnot"):
            js.append(("combine", {"n": 2 if q else 3, "a": a, "b": b, "op": op}))
    if not q:
        for a in ("and", "or"):
            for b in ("and", "or", "nand", "ornot"):
                js.append(("combine3", {"n": 3, "op1": a, "op2": b}))
    for k in ("<", ">=", "==", "any", "anytext", "chain"):
        js += [("wide", {"n": n, "kind": k}) for n in ((140,) if q else (65, 140, 300))]
    js.append(("multi_field", {"n": n}))
    for src in ("query", "list", "made", "slice", "span"):
        for k in (("v", "<="), ("sp", "cov"), ("f", "==")):
            js.append(("nested", {"n": 2 if q else 3, "source": src, "kind": k}))
    return js
