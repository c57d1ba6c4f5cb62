"""C05: Neighbour navigation and node spans follow layer order."""
from lib import attempt

BOUNDS = {"quick": "layers of 1..5 nodes (all, every other or none of them without values) with every subset removed, then any pair of nodes; layers of 17 and 20 nodes with "
                   "any block removed, of 140 nodes with chosen blocks removed; optional further edits (add, removal inside a span, sort); spans of text with any "
                   "offsets in a text of 0..1000 characters",
          "thorough": "as quick, layers of up to 7 nodes, and 24"}
OUTSIDE = "other layers of over 20 nodes"
ASSUMPTIONS = []


class S:
    def __init__(self, H, n, text=False, bare=None):
        self.H = H
        self.m = m = H.load("docria.model")
        T = m.DataTypes
        doc = m.Document()
        self.t = None
        if text:
            self.t = H.text("t", 0, 1000)
            self.T = doc.add_text("main", self.t)
            self.L = doc.add_layer("tok", v=T.int32(None), text=T.span("main"))
        else:
            self.L = doc.add_layer("tok", v=T.int32(None))
        self.O = doc.add_layer("other", v=T.int32(None))
        self.nodes = []
        self.pos = []
        for i in range(n):
            if text:
                a, b = H.int("s%d" % i, 0, 1000), H.int("e%d" % i, 0, 1000)
                H.assume(H.And(a <= b, b <= len(self.t)))
                self.pos.append((a, b))
                self.nodes.append(self.L.add(v=i, text=self.T[a:b]))
            else:
                # a node without any value is a node like any other
                self.nodes.append(self.L.add() if bare == "all" or bare == "odd" and i % 2 else self.L.add(v=i))

    def remove(self, flags):
        gone = [n for n, f in zip(self.nodes, flags) if f]
        if hasattr(self, "single") and self.single:
            for n in gone:
                self.L.remove(n)
        else:
            self.L.remove(gone)
        self.nodes = [n for n, f in zip(self.nodes, flags) if not f]
        return gone

    def neighbours(self):
        H, ns, L = self.H, self.nodes, self.L
        for i, n in enumerate(ns):
            l = ns[i - 1] if i > 0 else None
            r = ns[i + 1] if i + 1 < len(ns) else None
            H.check(n.left is l and L.left(n) is l, "left neighbour")
            H.check(n.right is r and L.right(n) is r, "right neighbour")

    def pairs(self, few):
        k = len(self.nodes)
        if few:
            idx = sorted({0, k // 3, k // 2, k - 1})
        else:
            idx = range(k)
        for i in idx:
            for j in idx:
                yield i, j

    def spans(self, few=False):
        H, ns, L, m = self.H, self.nodes, self.L, self.m
        for i, j in self.pairs(few):
            a, b = ns[i], ns[j]
            lo, hi = min(i, j), max(i, j)
            want = ns[lo:hi + 1]
            self.same([n for n in a.iter_span(b)], want, "iter_span")
            if i <= j:
                self.same([n for n in L.iter_nodespan(a, b)], want, "iter_nodespan")
                sp = m.NodeSpan(a, b)
                self.same([n for n in sp], want, "node span")
                H.check(len(sp) == len(want), "length of a node span")
                H.check(sp.first() is a and sp.last() is b, "ends of a node span")
                self.same([n for n in sp.to_list()], want, "node span to list")
                self.same([n for n in sp], want, "node span iterated again")
                col = sp["v"].to_list()
                H.check(col == [n.get("v") for n in want], "field column of a node span")
            else:
                ok, e = attempt(lambda: m.NodeSpan(a, b))
                H.check(not ok, "a node span with its nodes in the wrong order was accepted")
                ok, e = attempt(lambda: [n for n in L.iter_nodespan(a, b)])
                H.check(not ok, "iter_nodespan with its nodes in the wrong order was accepted")

    def same(self, got, want, what):
        self.H.check(len(got) == len(want), what + ": number of nodes")
        for x, y in zip(got, want):
            self.H.check(x is y, what + ": nodes")


def removed(H, n, single, bare=None):
    s = S(H, n, bare=bare)
    s.single = single
    s.neighbours()
    flags = [bool(H.bool("r%d" % i)) for i in range(n)]
    s.remove(flags)
    s.neighbours()
    s.spans()
    more = H.choose("then", ["", "add", "compact", "sort", "gone"])
    if more == "add":
        s.nodes.append(s.L.add(v=99))
    elif more == "compact":
        s.L.compact()
    elif more == "sort":
        order = {x: -i for i, x in enumerate(s.nodes)}
        s.L.sort(lambda x: order[x])
        s.nodes = s.nodes[::-1]
    elif more == "gone":
        # a span stays right when a node inside it is removed
        if len(s.nodes) < 3:
            return
        sp = s.m.NodeSpan(s.nodes[0], s.nodes[-1])
        k = H.concrete(H.int("k", 1, len(s.nodes) - 2))
        s.L.remove(s.nodes[k])
        del s.nodes[k]
        s.same([x for x in sp], s.nodes, "node span after a removal inside it")
        H.check(len(sp) == len(s.nodes), "length of a node span after a removal inside it")
    s.neighbours()
    s.spans()
    H.observe("ids", [x.i for x in s.nodes])


def block(H, n, single, bare=None):
    s = S(H, n, bare=bare)
    s.single = single
    a, k = H.int("a", 0, n - 1), H.int("k", 0, n // 2)
    s.remove([bool(H.And(a <= i, i < a + k)) for i in range(n)])
    s.neighbours()
    s.spans(True)
    more = H.choose("then", ["", "add", "first", "last"])
    if more == "add":
        s.nodes.append(s.L.add(v=99))
    elif more == "first":
        s.L.remove(s.nodes[0])
        del s.nodes[0]
    elif more == "last":
        s.nodes.pop().detach()
    s.neighbours()
    s.spans(True)


def wide(H, n):
    """a large layer, a block at a chosen place removed"""
    s = S(H, n, bare="odd")
    s.single = H.choose("single", [False, True])
    k = H.choose("k", [0, 1, n // 4, n // 4 + 1, n - 2])
    a = H.choose("a", sorted({0, (n - k) // 2, n - k}))
    s.remove([a <= i < a + k for i in range(n)])
    s.neighbours()
    s.spans(True)
    s.nodes.append(s.L.add(v=99))
    s.neighbours()


def sparse(H, n):
    """every other node, or every node but a few, removed one by one"""
    s = S(H, n)
    s.single = True
    k = H.choose("k", [2, 3, 4])
    o = H.int("o", 0, k - 1)
    inv = bool(H.bool("inv"))
    s.remove([bool(o == i % k) != inv for i in range(n)])
    s.neighbours()
    s.spans(True)


def text(H, n):
    """the text of a span of nodes is the string from the start of the first to the stop of the last node"""
    s = S(H, n, True)
    H_ = s.H
    flags = [bool(H_.bool("r%d" % i)) for i in range(n)]
    s.remove(flags)
    pos = [p for p, f in zip(s.pos, flags) if not f]
    for i in range(len(s.nodes)):
        for j in range(i, len(s.nodes)):
            a, b = pos[i][0], pos[j][1]
            sp = s.m.NodeSpan(s.nodes[i], s.nodes[j])
            if bool(a <= b):
                H_.check(sp.text() == s.t[a:b], "text of a node span")
                H_.check(sp.text("text") == s.t[a:b], "text of a node span by field")
                ts = sp.textspan()
                H_.check(H_.And(ts.start == a, ts.stop == b, ts.text is s.T), "text span of a node span")
                H_.observe("t%d%d" % (i, j), [ts.start, ts.stop])


def foreign(H):
    """nodes of different layers, or removed ones, make no span"""
    s = S(H, 3)
    o = [s.O.add(v=1), s.O.add(v=2), s.O.add(v=3)]
    i, j = H.concrete(H.int("i", 0, 2)), H.concrete(H.int("j", 0, 2))
    ok, e = attempt(lambda: s.m.NodeSpan(s.nodes[i], o[j]))
    H.check(not ok, "a node span over two layers was accepted")
    ok, e = attempt(lambda: [n for n in s.L.iter_nodespan(s.nodes[i], o[j])])
    H.check(not ok, "iteration over two layers was accepted")
    ok, e = attempt(lambda: [n for n in s.nodes[i].iter_span(o[j])])
    H.check(not ok, "iteration over two layers was accepted")
    ok, e = attempt(lambda: [n for n in s.O.iter_nodespan(s.nodes[0], s.nodes[1])])
    H.check(not ok, "iteration in another layer was accepted")
    ok, e = attempt(lambda: s.O.left(s.nodes[j]))
    H.check(not ok, "the neighbour in another layer was given")
    ok, e = attempt(lambda: s.O.right(s.nodes[j]))
    H.check(not ok, "the neighbour in another layer was given")
    gone = s.remove([k == i for k in range(3)])[0]
    for f in (lambda: s.m.NodeSpan(gone, s.nodes[0]), lambda: s.m.NodeSpan(s.nodes[0], gone), lambda: gone.left,
              lambda: gone.right):
        ok, e = attempt(f)
        H.check(not ok, "a removed node was navigated from or put in a node span")


def JOBS(tier):
    q = tier == "quick"
    js = []
    for n in range(1, 6 if q else 8):
        js += [("removed", {"n": n, "single": k}) for k in (False, True)]
    for n in (17, 20) if q else (16, 17, 18, 20, 24):
        js += [("block", {"n": n, "single": k}) for k in (False, True)]
    for b in ("odd", "all"):
        js += [("removed", {"n": 4, "single": False, "bare": b}), ("block", {"n": 17, "single": True, "bare": b})]
    js += [("wide", {"n": n}) for n in ((140,) if q else (65, 140, 270))]
    js += [("sparse", {"n": n}) for n in ((18,) if q else (17, 18, 21, 30))]
    js += [("text", {"n": n}) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    js += [("foreign",)]
    return js
