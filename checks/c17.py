"""C17: Span translation maps offsets through the mapping exactly."""
from lib import attempt

N = 30000
BOUNDS = {"quick": "up to 2 mapped intervals of any length, gaps and order in both texts (0..30000 characters), with up to 2 spans to "
                   "translate, each starting and ending anywhere, some of them translated already; 8 intervals and 8 spans, of which one interval lies anywhere in the target and one span "
                   "is any of up to 4 characters",
          "thorough": "up to 3 intervals with up to 2 spans, 2 intervals with 3 spans"}
OUTSIDE = "more intervals and spans at once; empty intervals and spans; mapped intervals of different lengths in the two texts"
ASSUMPTIONS = []


def translate(H, ni, ns, done=(), order=None, overlap=False):
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    ext, orig = H.text("ext", 0, N), H.text("orig", 0, N)
    ne, no = H.length(ext), H.length(orig)
    doc = m.Document()
    E, O = doc.add_text("ext", ext), doc.add_text("main", orig)
    T = m.DataTypes
    M = doc.add_layer("map", target=T.span("main"), source=T.span("ext"))
    iv = []
    for i in range(ni):
        a, b, c = H.int("a%d" % i, 0, N), H.int("b%d" % i, 0, N), H.int("c%d" % i, 0, N)
        H.assume(H.And(a < b, b <= ne, c + (b - a) <= no))
        for x, y, z in iv:
            if not overlap:
                H.assume(H.Or(b <= x, y <= a))
        iv.append((a, b, c))
    if overlap:
        (a, b, c), (x, y, z) = iv
        H.assume(H.And(a < y, x < b))
    for i, j in zip(order or (), (order or ())[1:]):
        H.assume(iv[i][0] <= iv[j][0])
    for a, b, c in iv:
        M.add(source=E[a:b], target=O[c:c + (b - a)])
    L = doc.add_layer("spans", src=T.span("ext"), dst=T.span("main"), n=T.int32())
    sp = []
    for i in range(ns):
        a, b = H.int("s%d" % i, 0, N), H.int("e%d" % i, 0, N)
        H.assume(H.And(a < b, b <= ne))
        node = L.add(src=E[a:b], n=i)
        d = None
        if i in done:
            d = H.int("d%d" % i, 0, N)
            H.assume(d <= no)
            node["dst"] = O[d:]
        sp.append((a, b, d, node))

    def inside(p):
        return H.Or(*[H.And(a <= p, p < b) for a, b, c in iv])

    def image(p):
        r = 0
        for a, b, c in iv:
            r = H.Ite(H.And(a <= p, p < b), c + (p - a), r)
        return r
    good = H.And(*[H.And(inside(a), inside(b - 1)) for a, b, d, _ in sp if d is None])
    # an image that ends before it starts is no span
    good = H.And(good, *[image(a) <= image(b - 1) + 1 for a, b, d, _ in sp if d is None])
    ok, r = attempt(lambda: alg.span_translate(doc, "map", ("target", "source"), "spans", ("src", "dst")))
    if overlap:
        H.check(not ok, "overlapping intervals were accepted")
        return
    H.check(H.Iff(ok, good), "refused a proper translation, or accepted an improper one")
    if not ok:
        return
    for a, b, d, node in sp:
        H.check("dst" in node, "a span without translation")
        x = node["dst"]
        H.check(x.text is O, "the text of the translation")
        if d is None:
            H.check(H.And(x.start == image(a), x.stop == image(b - 1) + 1), "the translated offsets")
        else:
            H.check(H.And(x.start == d, x.stop == no), "a translated span was translated again")
        y = node["src"]
        H.check(H.And(y.text is E, y.start == a, y.stop == b), "the source span changed")
        H.observe("t", [x.start, x.stop])
    for node, (a, b, c) in zip(M, iv):
        H.check(H.And(node["source"].start == a, node["source"].stop == b, node["target"].start == c), "the mapping changed")


def wide(H, ni, ns):
    """many intervals in a mixed order, of which one has any place, and many spans, of which one is any"""
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    doc = m.Document()
    E, O = doc.add_text("ext", "e" * (6 * ni)), doc.add_text("main", "o" * (9 * ni))
    T = m.DataTypes
    M = doc.add_layer("map", target=T.span("main"), source=T.span("ext"))
    at = H.choose("at", [0, ni // 2, ni - 1])
    iv = [(6 * (i * 5 % ni), 6 * (i * 5 % ni) + 4, 8 * i) for i in range(ni)]
    c = H.int("c", 0, 8 * ni)
    d = H.int("d", 0, 4)
    iv[at] = (iv[at][0], iv[at][0] + 5 - d, c) if H.choose("longer", [False, True]) else (iv[at][0], iv[at][1], c)
    H.assume(d < 4)
    for a, b, c in iv:
        M.add(source=E[a:b], target=O[c:c + (b - a)])
    L = doc.add_layer("spans", src=T.span("ext"), dst=T.span("main"))
    x = H.int("x", 0, 6 * ni - 1)
    y = H.int("y", 1, 4)
    H.assume(x + y <= 6 * ni)
    sat = H.choose("sat", [0, ns - 1])
    sp = [(x, x + y) if i == sat else (iv[i % ni][0], iv[i % ni][0] + 1) for i in range(ns)]
    done = {"none": [], "first": range(ns // 2), "all": range(ns)}[H.choose("done", ["none", "first", "all"])]
    for i, (a, b) in enumerate(sp):
        if i in done and i != sat:
            L.add(src=E[a:b], dst=O[i:i + 2])
        else:
            L.add(src=E[a:b])

    def image(p):
        r = -1
        for a, b, c in iv:
            r = H.Ite(H.And(a <= p, p < b), c + (p - a), r)
        return r
    u, v = image(x), image(x + y - 1)
    good = H.And(u >= 0, v >= 0, u <= v + 1)
    ok, r = attempt(lambda: alg.span_translate(doc, "map", ("target", "source"), "spans", ("src", "dst")))
    H.check(H.Iff(ok, good), "refused a proper translation, or accepted an improper one")
    if ok:
        for i, ((a, b), n) in enumerate(zip(sp, L)):
            q = n["dst"]
            if i in done and i != sat:
                H.check(q.start == i and q.stop == i + 2, "a span that was translated before")
                continue
            H.check(H.And(q.start == image(a), q.stop == image(b - 1) + 1), "the translated offsets")


def again(H):
    """translating twice changes nothing"""
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    t = H.text("t", 1, N)
    doc = m.Document()
    E, O = doc.add_text("ext", t), doc.add_text("main", t)
    T = m.DataTypes
    doc.add_layer("map", o=T.span("main"), e=T.span("ext")).add(o=O[:], e=E[:])
    a, b = H.int("a", 0, N), H.int("b", 0, N)
    H.assume(H.And(a < b, b <= H.length(t)))
    n = doc.add_layer("l", e=T.span("ext"), o=T.span("main")).add(e=E[a:b])
    alg.span_translate(doc, "map", ("o", "e"), "l", ("e", "o"))
    x = n["o"]
    H.check(H.And(x.start == a, x.stop == b), "identity mapping")
    alg.span_translate(doc, "map", ("o", "e"), "l", ("e", "o"))
    H.check(n["o"] is x, "translated again")


def JOBS(tier):
    q = tier == "quick"
    js = [("again",)]
    for ni in range(0, 3):
        for ns in range(0, 3):
            if (ni, ns) == (2, 2):
                js += [("translate", {"ni": 2, "ns": 2, "order": o}) for o in ((0, 1), (1, 0))]
                continue
            js.append(("translate", {"ni": ni, "ns": ns}))
    js += [("translate", {"ni": 2, "ns": 2, "done": [0]}), ("translate", {"ni": 1, "ns": 2, "done": [1]}),
           ("translate", {"ni": 1, "ns": 1, "done": [0]})]
    js += [("translate", {"ni": 2, "ns": 0, "overlap": True}), ("translate", {"ni": 2, "ns": 1, "overlap": True})]
    js += [("translate", {"ni": 3, "ns": 1, "order": o}) for o in ((0, 1, 2), (2, 1, 0), (1, 2, 0))]
    js.append(("wide", {"ni": 8 if q else 20, "ns": 40}))
    if not q:
        import itertools
        js += [("translate", {"ni": 3, "ns": 2, "order": o}) for o in itertools.permutations(range(3))]
        js += [("translate", {"ni": 2, "ns": 3, "order": o}) for o in itertools.permutations(range(2))]
    return js
