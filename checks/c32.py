"""C32: The Java port and Python exchange documents."""
import struct

JAVA = True
BOUNDS = {"quick": "fields of each of the thirteen kinds on up to 2 nodes, set or not, and several kinds side by side; whole numbers of every length of "
                   "their encoding (from 5 bytes on near the ends of the range), nine floating point numbers, texts and bytes up to 300, texts of up to 12 characters with any "
                   "span, two texts, references, lists and node spans over a layer of 4 nodes of which one may have been removed; layers of up to "
                   "17 nodes; types with defaults; properties of every kind, also empty and embedded documents, next to 0 to 3 layers",
          "thorough": "texts and bytes up to 70000, references on 2 nodes"}
OUTSIDE = "characters outside the basic plane; properties that are lists or dictionaries; node factories; documents in other versions of the format"
ASSUMPTIONS = ["fastutil and msgpack-java are not installed: they are replaced by plain functional stand-ins in /verif/java."]
PLAIN = ("int", "long", "double", "bool", "str", "bin")
DOUBLES = [0.0, -0.0, 0.1, -1.5, 1e300, 5e-324, float("inf"), float("-inf"), float("nan")]
WIDE = {"int": 31, "long": 63}


def bits(x):
    return struct.unpack(">q", struct.pack(">d", x))[0]


def value(H, kind, nm, top, wide):
    """(long, string, bytes, Python value)"""
    if kind in WIDE:
        v = H.int(nm, *wide)
        return v, "", b"", v
    if kind == "double":
        x = H.choose(nm, DOUBLES)
        return bits(x), "", b"", x
    if kind == "bool":
        b = bool(H.bool(nm))
        return int(b), "", b"", b
    if kind in ("str", "doc"):
        # the two write an empty text in two ways, which both read
        s = H.text(nm, int(kind == "doc"), top)
        return 0, s, b"", s
    if kind in ("bin", "ext"):
        b = H.blob(nm, 0, top)
        return 0, "", b, b
    return 0, "", b"", None


def same(H, kind, got, want):
    if kind == "double":
        return isinstance(got, float) and bits(got) == bits(want)
    if kind == "bool":
        return got is want
    return got == want


def types(m, kind, dflt):
    T = m.DataTypes
    return {"int": lambda: T.int32(7 if dflt else None), "long": lambda: T.int64(2 ** 40 if dflt else None),
            "double": lambda: T.float64(0.1 if dflt else None), "bool": lambda: T.bool(True if dflt else None),
            "str": lambda: T.string("x" if dflt else None), "bin": lambda: T.binary, "ext": lambda: T.ext("some"), "doc": lambda: T.ext("doc"),
            "span": lambda: T.span("main"), "side": lambda: T.span("side"), "node": lambda: T.noderef("t"),
            "array": lambda: T.noderef_many("t"), "nodespan": lambda: T.nodespan("t")}[kind]()


def columns(H, kinds, nodes, top, dflt=False, refs=False, texts=1, wide=None):
    """every kind of field, through both implementations"""
    H.literal()
    m, c = H.load("docria.model"), H.load("docria.codec")
    ts = [H.text("t%d" % i, 0, top) if "span" in kinds else H.text("t%d" % i, 2, 2) for i in range(texts)]
    gone = H.choose("gone", [-1, 0, 1, 3]) if refs else -1
    left = [i for i in range(4) if i != gone]
    phase = H.choose("phase", range(3)) if nodes > 4 else 0
    have, a, b, v, s, blobs, py = [], [], [], [], [], [], []
    for i in range(nodes):
        for k, kind in enumerate(kinds):
            nm = "%d_%d" % (i, k)
            x, y, z = 0, 0, (0, "", b"", None)
            # Python writes the default of a field that is not set, Java nothing
            h = dflt or (bool(H.bool("have" + nm)) if nodes < 5 else i % 3 != phase)
            if h and kind in ("span", "side"):
                x, y = H.int("a" + nm, 0, top), H.int("b" + nm, 0, top)
                H.assume(x <= y)
                H.assume(y <= H.length(ts[kind == "side"]))
            elif h and kind in ("node", "nodespan"):
                x = H.choose("a" + nm, left)
                if kind == "nodespan":
                    y = H.choose("b" + nm, [j for j in left if j >= x])
            elif h and kind == "array":
                for j in range(H.choose("n" + nm, [0, 1, 2])):
                    x = x * 5 + 1 + H.choose("x%s_%d" % (nm, j), left)
            elif h:
                z = value(H, kind, "v" + nm, top, wide)
            have.append(int(h))
            a.append(x)
            b.append(y)
            v.append(z[0])
            s.append(z[1])
            blobs.append(z[2])
            py.append(z[3])
    data = b""
    for x in blobs:
        data = data + x
    by_java = H.java("codecEncode", kinds, nodes, have, a, b, v, s, data, [H.length(x) for x in blobs], int(dflt), gone, ts)
    # the same document in Python
    doc = m.Document()
    for nm, t in zip(("main", "side"), ts):
        doc.add_text(nm, t)
    l = doc.add_layer("l", **{"f%d" % k: types(m, kind, dflt) for k, kind in enumerate(kinds)})
    t = doc.add_layer("t")
    to = [t.add() for i in range(4)]
    if gone >= 0:
        to[gone].detach()
    at = 0
    for i in range(nodes):
        f = {}
        for k, kind in enumerate(kinds):
            if have[at]:
                f["f%d" % k] = field(m, c, doc, kind, a[at], b[at], py[at], to)
            at += 1
        l.add(**f)
    by_python = c.MsgpackCodec.encode(doc)
    # Python writes an empty list as none
    if not any(h and not x for h, k, x in zip(have, kinds * nodes, a) if k == "array"):
        H.check(H.java("codecAgain", by_python) == by_java, "the document that Python wrote, as Java has it")
        H.check(list(H.java("results")) == [0], "types of the values read by Java")
    H.check(H.java("codecAgain", by_java) == by_java, "the document that Java wrote, as Java has it")
    # and back
    got = c.MsgpackCodec.decode(by_java)
    H.check(sorted(got.layers) == ["l", "t"], "layers")
    H.check([str(got.texts[n]) for n in ("main", "side")[:texts]] == ts, "texts")
    H.check(len(got.texts) == texts, "texts")
    H.check(len(got["t"]) == len(left), "nodes of t")
    H.check(len(got["l"]) == nodes, "nodes of l")
    H.check({f: (x.typename, x.options) for f, x in got["l"].schema.fields.items()} == {f: (x.typename, x.options) for f, x in l.schema.fields.items()}, "schema read by Python")
    place = {id(n): j for j, n in zip(left, got["t"])}
    at = 0
    for n in got["l"]:
        for k, kind in enumerate(kinds):
            f = "f%d" % k
            if not have[at]:
                H.check(f not in n or n[f] is None or dflt, "a field that was not set")
            else:
                x = n[f]
                if kind in ("span", "side"):
                    H.check(H.And(x.start == a[at], x.stop == b[at]), "span read by Python")
                    H.check(x.text is got.texts["main" if kind == "span" else "side"], "text of a span")
                elif kind == "node":
                    H.check(place[id(x)] == a[at], "reference read by Python")
                elif kind == "array":
                    H.check([place[id(y)] for y in x] == many(a[at]), "references read by Python")
                elif kind == "nodespan":
                    H.check((place[id(x.left)], place[id(x.right)]) == (a[at], b[at]), "node span read by Python")
                elif kind == "doc":
                    H.check(str(x.decode().texts["main"]) == py[at], "document in a field")
                elif kind == "ext":
                    H.check(x.type == "some" and x.encode() == py[at], "extended data read by Python")
                else:
                    H.check(same(H, kind, x, py[at]), "value read by Python")
            at += 1
    H.observe("size", H.length(by_java))


def many(x):
    r = []
    while x:
        r.append(x % 5 - 1)
        x //= 5
    return r


def field(m, c, doc, kind, a, b, v, to):
    if kind in ("span", "side"):
        return doc.texts["main" if kind == "span" else "side"][a:b]
    if kind == "node":
        return to[a]
    if kind == "array":
        return [to[i] for i in many(a)]
    if kind == "nodespan":
        return m.NodeSpan(to[a], to[b])
    if kind == "ext":
        return m.ExtData("some", v)
    if kind == "doc":
        d = m.Document()
        d.add_text("main", v)
        return c.MsgpackDocumentExt(d)
    return v


def properties(H, kinds, top, layers, wide=None):
    """properties of every kind, and the parts of a document"""
    H.literal()
    m, c = H.load("docria.model"), H.load("docria.codec")
    keys = ["k%d" % i for i in range(len(kinds))]
    vs = [value(H, kind, "v%d" % i, top, wide) for i, kind in enumerate(kinds)]
    data = b""
    for x in vs:
        data = data + x[2]
    raw = H.java("codecProps", keys, kinds, [x[0] for x in vs], [x[1] for x in vs], data, [H.length(x[2]) for x in vs], layers)
    for k, kind, x in zip(keys, kinds, vs):
        H.check(H.java("codecKind", raw, k, kind, x[0], x[1], x[2]) == -1, "property read by Java")
    for first in (True, False):
        H.check(H.java("codecCompartments", raw, first) == raw, "the compartments")
        H.check(list(H.java("results")) == [0], "the compartments")
    got = c.MsgpackCodec.decode(raw)
    H.check(len(got.props) == len(kinds), "properties read by Python")
    H.check([len(got["l%d" % i]) for i in range(layers)] == list(range(layers)), "layers read by Python")
    H.check(len(got.layers) == layers, "layers read by Python")
    if "ext" in kinds or "doc" in kinds:
        return
    for k, kind, x in zip(keys, kinds, vs):
        H.check(same(H, kind, got.props[k], x[3]), "property read by Python")
    doc = m.Document(**{k: x[3] for k, x in zip(keys, vs)})
    for i in range(layers):
        l = doc.add_layer("l%d" % i)
        for k in range(i):
            l.add()
    raw = c.MsgpackCodec.encode(doc)
    for k, kind, x in zip(keys, kinds, vs):
        H.check(H.java("codecKind", raw, k, kind, x[0], x[1], x[2]) == -1, "property written by Python and read by Java")
    H.check(H.java("codecCompartments", raw, False) == raw, "the compartments")
    H.observe("size", H.length(raw))


def ranges(kind):
    """whole numbers by the length of their encoding"""
    if kind not in WIDE:
        return [None]
    r = [[-2 ** 15, -129], [-128, -33], [-32, -1], [0, 127], [128, 255], [256, 2 ** 16 - 1]]
    for b in [16, 31] + [32, 40, 63] * (kind == "long"):
        # the upper and the lower end of a range
        r += [[2 ** b - 2 ** 15, 2 ** b - 1], [-2 ** b, -2 ** b + 2 ** 15]]
        if b not in (31 if kind == "int" else 63, 16):
            r += [[2 ** b, 2 ** b + 2 ** 15], [-2 ** b - 2 ** 15, -2 ** b - 1]]
    return [x for x in r if x != [2 ** 15, 2 ** 16 - 1]]


def JOBS(tier):
    q = tier == "quick"
    top = 300 if q else 70000
    js = []
    for k in PLAIN + ("ext",):
        for w in ranges(k):
            js.append(("columns", {"kinds": [k], "nodes": 1, "top": top, "wide": w}))
    for k in PLAIN[:5]:
        js.append(("columns", {"kinds": [k], "nodes": 1, "top": top, "dflt": True, "wide": [0, 127]}))
    js.append(("columns", {"kinds": ["span"], "nodes": 1, "top": 12}))
    js.append(("columns", {"kinds": ["span"], "nodes": 2, "top": 4}))
    js.append(("columns", {"kinds": ["span", "side"], "nodes": 1, "top": 4, "texts": 2}))
    for k in ("node", "array", "nodespan"):
        js.append(("columns", {"kinds": [k], "nodes": 1 if q else 2, "top": 0, "refs": True}))
    js.append(("columns", {"kinds": ["doc"], "nodes": 1, "top": 40}))
    for k in ("int", "bool", "bin", "node") if q else PLAIN + ("node", "array", "nodespan"):
        js.append(("columns", {"kinds": [k], "nodes": 2, "top": 8, "wide": [0, 9]}))
    for n in (15, 16, 17):
        js.append(("columns", {"kinds": ["int"], "nodes": n, "top": 8, "wide": [0, 9]}))
    js.append(("columns", {"kinds": ["str", "bool", "long"], "nodes": 1, "top": 8, "wide": [-9, -1]}))
    js.append(("columns", {"kinds": ["span", "node", "int"], "nodes": 1, "top": 3, "wide": [0, 9]}))
    for k in PLAIN + ("nil", "ext", "doc"):
        for w in ranges(k):
            js.append(("properties", {"kinds": [k], "top": top, "layers": 1, "wide": w}))
    for n in range(4):
        js.append(("properties", {"kinds": ["bool"] * n, "top": 0, "layers": n}))
    return js
