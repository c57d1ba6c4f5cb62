"""C01: Binary encoding round-trips every valid document."""
import docs

BOUNDS = {"quick": "texts of 0..30000 characters with 2 spans in one text or 1 in each of two, any offsets and presence; 2 values "
                   "of every plain type (integers over the full range, strings and byte strings up to 30000 / 70000 long) and all "
                   "types side by side, with and without defaults; reference graphs over two layers of up to 2 nodes, lists up to "
                   "2; extended data up to 70000 bytes and embedded documents; removals, retain, sort and additions before encoding on layers of 4 nodes; properties of every JSON kind, "
                   "bytes and nested ones; 0..17 layers, fields, properties, texts, nodes; 40 and 300 nodes with spans, references and lists as long, any value "
                   "and chosen ends at chosen places",
          "thorough": "3 spans in a text, 2 in each of two texts, 3 values, reference graphs up to 3 nodes, layers of 5"}
OUTSIDE = "texts over 30000 characters, layers over 20 nodes in other shapes than those named; floats that are not multiples of 1/8 or over 10^6"
ASSUMPTIONS = ["The msgpack library packs and unpacks as specified (contract in sx/stubs/mp.py)."]


def run(H, exp, m=None, doc=None, ids=False):
    m = H.load("docria.model")
    c = H.load("docria.codec")
    if doc is None:
        doc, _ = docs.build(H, m, exp)
    docs.same(H, m, doc, exp, "before", ids=False, empty_may_vanish=False)
    data = c.MsgpackCodec.encode(doc)
    H.check(isinstance(data, bytes), "encoding gives bytes")
    docs.same(H, m, doc, exp, "the original after encoding", ids=False, empty_may_vanish=False)
    d2 = c.MsgpackCodec.decode(data)
    docs.same(H, m, d2, exp, "decoded")
    d3 = c.MsgpackDocument(data).document()
    docs.same(H, m, d3, exp, "decoded from MsgpackDocument")
    data2 = c.MsgpackCodec.encode(d2)
    H.check(data2 == data, "encoding the decoded document gives other bytes")
    H.check(c.MsgpackCodec.encode(doc) == data, "encoding again gives other bytes")
    H.observe("size", H.length(data))
    H.observe("doc", describe(d2))


def describe(doc):
    return {l: [{f: v for f, v in n.items() if isinstance(v, (int, float, str, bool))} for n in L]
            for l, L in doc.layers.items()}


def spans(H, texts, per):
    run(H, docs.spans(H, texts, per))


def values(H, t, n, default=None):
    run(H, docs.values(H, t, n, default))


def mixed(H, n):
    run(H, docs.mixed(H, n))


def refs(H, na, nb, maxlist, kinds):
    run(H, docs.refs(H, na, nb, maxlist, kinds))


def history(H, n, ops, sorting):
    """nodes removed, retained, sorted and added before encoding; references follow the nodes"""
    m = H.load("docria.model")
    doc = m.Document()
    t = doc.add_text("main", H.text("t", 0, 200))
    T = m.DataTypes
    L = doc.add_layer("tok", k=T.int32(None), s=T.span("main"))
    R = doc.add_layer("ref", r=T.noderef("tok"), m=T.noderef_many("tok"), q=T.nodespan("tok"))
    ln = H.length(str(t))
    keys = [H.int("k%d" % i, 0, 9) if sorting else 10 * i for i in range(n)]
    cur = []
    for i in range(n):
        a, b = H.int("a%d" % i, 0, 200), ln
        H.assume(a <= b)
        x = L.add(k=keys[i], s=t[a:b]) if i % 2 == 0 else L.add(k=keys[i])
        cur.append((x, keys[i], a if i % 2 == 0 else None))
    nxt = n
    for o in range(ops):
        op = H.choose("op%d" % o, ["remove", "retain", "add", "sort", "many"] if sorting else ["remove", "retain", "add", "many"])
        if op == "remove":
            if not cur:
                continue
            i = H.concrete(H.int("i%d" % o, 0, len(cur) - 1))
            cur.pop(i)[0].detach()
        elif op == "many":
            sel = [bool(H.bool("r%d_%d" % (o, i))) for i in range(len(cur))]
            L.remove([c[0] for c, s in zip(cur, sel) if s])
            cur = [c for c, s in zip(cur, sel) if not s]
        elif op == "retain":
            sel = [bool(H.bool("r%d_%d" % (o, i))) for i in range(len(cur))]
            L.retain([c[0] for c, s in zip(cur, sel) if s])
            cur = [c for c, s in zip(cur, sel) if s]
        elif op == "add":
            cur.append((L.add(k=1000 + nxt), 1000 + nxt, None))
            nxt += 1
        else:
            L.sort(lambda x: x["k"])
            cur.sort(key=lambda c: c[1])
    if cur:
        i, j = H.concrete(H.int("x", 0, len(cur) - 1)), H.concrete(H.int("y", 0, len(cur) - 1))
        i, j = min(i, j), max(i, j)
        R.add(r=cur[i][0], m=[cur[j][0], cur[i][0]], q=m.NodeSpan(cur[i][0], cur[j][0]))
    R.add()
    tok = []
    for x, k, a in cur:
        e = {"k": ("p", k)}
        if a is not None:
            e["s"] = ("span", "main", a, ln)
        tok.append(e)
    ref = [{"r": ("ref", "tok", i), "m": ("many", "tok", [j, i]), "q": ("nspan", "tok", i, j)}] if cur else []
    exp = {"props": {}, "texts": {"main": str(t)},
           "layers": {"tok": ({"k": ("i32", None), "s": ("span", "main")}, tok),
                      "ref": ({"r": ("ref", "tok"), "m": ("many", "tok"), "q": ("nspan", "tok")}, ref + [{}])}}
    run(H, exp, doc=doc)


def props(H, kind):
    v = {"int": lambda: H.int("v", -2 ** 63, 2 ** 64 - 1), "float": lambda: H.float("v", -100, 100, 8),
         "bool": lambda: H.bool("v"), "str": lambda: H.text("v", 0, 30000), "none": lambda: None,
         "bytes": lambda: H.blob("v", 0, 70000),
         "list": lambda: [H.int("v", -200, 70000), [H.text("w", 0, 40), None], []],
         "dict": lambda: {"a": H.int("v", -200, 70000), "b": {"c": [H.text("w", 0, 40)], "d": {}}}}[kind]()
    exp = {"props": {"first": 1, "value": v, "last": "ü"}, "setprops": bool(H.bool("set")), "texts": {"main": "abc"},
           "layers": {"tok": ({"s": ("span", "main")}, [{"s": ("span", "main", 1, 2)}])}}
    run(H, exp)


def sizes(H, what, n):
    """header sizes: counts around the limits of the format"""
    c = {k: 1 for k in ("layers", "fields", "props", "texts", "nodes", "list")}
    c[what] = n
    tx = {"text%d" % i: "a€\U0001f600"[i % 3:] * (i % 2 + 1) for i in range(c["texts"])}
    fs = {"field%d" % i: ("i32", None) for i in range(c["fields"])}
    if tx:
        fs["sp"] = ("span", "text0")
    v = H.int("v", -2 ** 31, 2 ** 31 - 1)
    ns = []
    for j in range(c["nodes"]):
        e = {f: ("p", v if i == 0 else i * 1000 + j) for i, f in enumerate(fs) if f != "sp"}
        if tx:
            e["sp"] = ("span", "text0", 0, 1)
        ns.append(e)
    ly = {"layer%d" % i: (fs, ns) for i in range(c["layers"])}
    if c["layers"]:
        ly["refs"] = ({"m": ("many", "layer0")}, [{"m": ("many", "layer0", [j % len(ns) for j in range(c["list"])] if ns else [])}])
    exp = {"props": {"p%d" % i: i for i in range(c["props"])}, "texts": tx, "layers": ly}
    run(H, exp)


def wide(H, n):
    run(H, docs.wide(H, n))


def names(H):
    """names of any characters"""
    nm = H.choose("n", ["", "a b", "ü\u20ac", "x" * 40, "\U0001f600", "default", "DM_1"])
    fn = "f-" + nm
    exp = {"props": {nm: "v"}, "texts": {nm: "abc"},
           "layers": {nm: ({fn: ("span", nm), nm or "e": ("ref", nm)},
                           [{fn: ("span", nm, 1, 3)}, {nm or "e": ("ref", nm, 0)}])}}
    run(H, exp)


def kinds(H, t):
    """values given as other kinds of collection"""
    m = H.load("docria.model")
    doc = m.Document()
    T = m.DataTypes
    A = doc.add_layer("a", k=T.int32(None))
    ns = [A.add(k=i) for i in range(4)]
    gap = H.concrete(H.int("gap", 0, 3))
    ns.pop(gap).detach()
    B = doc.add_layer("b", m=T.noderef_many("a"))
    v = {"nodelist": lambda: A.to_list(), "slice": lambda: A[1:4], "nodespan": lambda: m.NodeSpan(ns[0], ns[2]),
         "query": lambda: A[A["k"] >= 0]}[t]()
    want = [x for x in v]
    idx = [[j for j, y in enumerate(ns) if y is x][0] for x in want]
    B.add(m=v)
    exp = {"props": {}, "texts": {}, "layers": {"a": ({"k": ("i32", None)}, [{"k": ("p", x["k"])} for x in ns]),
                                                "b": ({"m": ("many", "a")}, [{"m": ("many", "a", idx)}])}}
    c = H.load("docria.codec")
    docs.same(H, m, c.MsgpackCodec.decode(c.MsgpackCodec.encode(doc)), exp, "decoded")
    H.check(B.first()["m"] is v, "encoding replaced a value")


def ext(H, n, kind):
    """extended data of any bytes, raw bytes and embedded documents, next to other fields and absent ones"""
    m = H.load("docria.model")
    c = H.load("docria.codec")
    T = m.DataTypes
    doc = m.Document()
    name = "doc" if kind == "doc" else H.choose("name", ["x", "application/x", ""])
    L = doc.add_layer("tok", a=T.int32(None), e=T.ext(name), z=T.string(None))
    want = []
    for i in range(n):
        fs, w = {}, {}
        for f, v in (("a", H.int("a%d" % i, -9, 9)), ("z", "z%d" % i)):
            if H.bool("%s?%d" % (f, i)):
                fs[f] = w[f] = v
        k = H.choose("k%d" % i, ["none", "bytes", "ext"])
        if kind == "doc":
            p, s = H.int("p%d" % i, -2 ** 40, 2 ** 40), H.text("s%d" % i, 0, 300)
            inner = m.Document(p=p)
            inner.maintext = s
            inner.add_layer("in", s=T.span()).add(s=inner.maintext[0:len(s)])
            if k == "bytes":
                fs["e"] = c.MsgpackDocumentExt(c.MsgpackCodec.encode(inner))
            elif k == "ext":
                fs["e"] = c.MsgpackDocumentExt(inner)
            w["e"] = (p, s)
        else:
            b = H.blob("b%d" % i, 0, 70000)
            if k == "bytes":
                fs["e"] = b
            elif k == "ext":
                fs["e"] = m.ExtData(name, b)
            w["e"] = b
        if k == "none":
            del w["e"]
        L.add(m.Node(**fs))
        want.append(w)
    data = c.MsgpackCodec.encode(doc)
    for d in (c.MsgpackCodec.decode(data), c.MsgpackDocument(data).document()):
        H.check(list(d.layers) == ["tok"] and list(d["tok"].schema.fields) == ["a", "e", "z"], "layers and fields")
        H.check(d["tok"].schema.fields["e"] == T.ext(name), "type of the extended field")
        ns = [x for x in d["tok"]]
        H.check(len(ns) == n, "number of nodes")
        for x, w in zip(ns, want):
            H.check(sorted(x.keys()) == sorted(w), "fields of a node")
            for f in w:
                if f != "e":
                    H.check(H.eq(x[f], w[f]), "field next to an extended one")
                elif kind == "doc":
                    H.check(isinstance(x[f], c.MsgpackDocumentExt), "embedded document")
                    i = x[f].decode()
                    H.check(H.eq(i.props["p"], w[f][0]) and H.eq(str(i.maintext), w[f][1]), "contents of the embedded document")
                    H.check(H.eq(str(i["in"].first()["s"]), w[f][1]), "span of the embedded document")
                else:
                    H.check(isinstance(x[f], m.ExtData) and x[f].type == name, "type of the extended data")
                    H.check(H.eq(x[f].data, w[f]), "extended data")
        H.check(c.MsgpackCodec.encode(d) == data, "encoding the decoded document gives other bytes")


def JOBS(tier):
    q = tier == "quick"
    js = [("spans", {"texts": 1, "per": 1 if q else 1}), ("spans", {"texts": 1, "per": 2}), ("spans", {"texts": 2, "per": 1})]
    if not q:
        js += [("spans", {"texts": 1, "per": 3}), ("spans", {"texts": 2, "per": 2})]
    for t in docs.PLAIN:
        js.append(("values", {"t": t, "n": 2 if q else 3}))
        for d in {"i32": [0, 7, -5], "i64": [0, 2 ** 40], "f64": [1.5, 0.0], "bool": [False, True], "str": ["", "dflt"]}.get(t, []):
            js.append(("values", {"t": t, "n": 1 if q else 2, "default": d}))
    js.append(("mixed", {"n": 1 if q else 2}))
    allk = ["ref", "many", "nspan"]
    for na, nb in ((1, 1), (0, 1), (0, 0)) if q else ((1, 1), (1, 2), (2, 1), (0, 2)):
        js.append(("refs", {"na": na, "nb": nb, "maxlist": 2 if na + nb < 3 else 1, "kinds": allk}))
    for k in allk:
        js.append(("refs", {"na": 2, "nb": 1 if k == "many" and q else 2, "maxlist": 2, "kinds": [k]}))
        if not q:
            js.append(("refs", {"na": 3, "nb": 2, "maxlist": 2, "kinds": [k]}))
    for s in (False, True):
        js.append(("history", {"n": 3 if q else 4, "ops": 1 if s or q else 2, "sorting": s}))
    for k in ("int", "float", "bool", "str", "none", "bytes", "list", "dict"):
        js.append(("props", {"kind": k}))
    for w in ("layers", "fields", "props", "texts", "nodes", "list"):
        for n in (0, 2, 15, 16, 17):
            js.append(("sizes", {"what": w, "n": n}))
    for n in (40, 300) if q else (40, 300, 1000):
        js.append(("wide", {"n": n}))
    js.append(("names",))
    for k in ("data", "doc"):
        js += [("ext", {"n": i, "kind": k}) for i in ((0, 1, 2) if k == "data" or not q else (0, 1))]
    for t in ("nodelist", "slice", "nodespan", "query"):
        js.append(("kinds", {"t": t}))
    return js
