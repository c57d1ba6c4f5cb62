"""C12: Partial access to an encoded document agrees with full decoding."""
import docs

BOUNDS = {"quick": "documents with 0..5 properties (also None and empty ones), 0..2 texts and 4 layers in two groups that refer only to themselves, text and "
                   "property sizes up to 30000 characters, values of any size, layers of any size up to 70000 bytes; every choice of property keys, text names (also "
                   "ones that are not there) and layer groups; sequences of 3 accesses in any order; in memory and from a file; 40 properties, texts and layers, any one of them of any value",
          "thorough": "sequences of 4 accesses"}
OUTSIDE = "layers that refer to layers that are not chosen; EXT fields"
ASSUMPTIONS = ["Texts of an encoded document are read as the list of their segments."]


def sample(H, small=False, nprops=5, ntexts=2):
    t = H.text("t", 0, 30 if small else 30000)
    n = H.length(t)
    a, b = H.int("a", 0, 30000), H.int("b", 0, 30000)
    H.assume(H.And(a <= b, b <= n))
    pr = {"one": H.int("p1", -2 ** 63, 2 ** 63 - 1), "two": H.text("p2", 0, 30 if small else 30000),
          "three": [1, {"x": None}], "four": None, "five": ""}
    pr = dict(list(pr.items())[:nprops])
    tx = dict([("main", t), ("title", "title text")][:ntexts])
    la = {}
    if ntexts:
        la["tok"] = ({"s": ("span", "main"), "v": ("i64", None)},
                     [{"s": ("span", "main", a, b), "v": ("p", H.int("v", -2 ** 63, 2 ** 63 - 1))}, {}])
        la["dep"] = ({"head": ("ref", "tok"), "all": ("many", "dep")}, [{"head": ("ref", "tok", 1), "all": ("many", "dep", [1, 0])},
                                                                      {"head": ("ref", "tok", 0)}])
        la["solo"] = ({"f": ("f64", 1.5), "b": ("bin", None)},
                      [{"f": ("p", H.float("f", -100, 100, 4)), "b": ("p", H.blob("b0", 0, 30 if small else 70000))}])
    if ntexts == 2:
        la["sent"] = ({"s": ("span", "title"), "sp": ("nspan", "sent")},
                      [{"s": ("span", "title", 0, 5), "sp": ("nspan", "sent", 0, 1)}, {}, {"s": ("span", "title", 5, 10)}])
    return {"props": pr, "texts": tx, "layers": la}


GROUPS = [["tok", "dep"], ["solo"], ["sent"]]


def make(H, exp, how):
    m, c = H.load("docria.model"), H.load("docria.codec")
    doc, _ = docs.build(H, m, exp)
    data = c.MsgpackCodec.encode(doc)
    if how == "document":
        return c.MsgpackDocument(doc, ref=(7, 8)), data, doc
    if how == "bytes":
        return c.MsgpackDocument(data, ref=(7, 8)), data, doc
    if how == "stream":
        return c.MsgpackDocument(H.io(data), ref=(7, 8)), data, doc
    if how == "state":
        return copied(H, c.MsgpackDocument(data, ref=(7, 8))), data, doc
    path = H.tmpdir() + "/d.msgpack"
    H.putfile(path, data)
    return c.MsgpackDocument(open(path, "rb"), ref=(7, 8)), data, doc


def copied(H, x):
    y = type(x).__new__(type(x))
    y.__setstate__(x.__getstate__())
    return y


def access(H, m, md, exp, op, nm, data, few=False):
    """one way of looking at the encoded document"""
    if op == "props":
        H.check(dict(md.properties()) == exp["props"], "properties")
    elif op == "props-some":
        names = H.choose(nm, [["two"], ["nowhere", "one"]]) if few else \
            [k for k in ("three", "nowhere", "one", "two") if H.bool(nm + k)]
        if not few and H.bool(nm + "empty"):
            names += ["five", "four"]
        if names:
            got = md.properties(*names)
            H.check(dict(got) == {k: v for k, v in exp["props"].items() if k in names}, "chosen properties")
    elif op == "schema":
        ls, sch = md.schema()
        H.check(list(ls) == list(exp["layers"]) and sorted(sch.keys()) == sorted(exp["layers"]), "layers of the schema")
        for l, (fs, _) in exp["layers"].items():
            H.check([f for f, _ in sch[l]] == list(fs), "fields of the schema")
            for f, dt in sch[l]:
                docs.checktype(H, m, dt, fs[f], "schema")
    elif op == "texts":
        got = md.texts()
        H.check(sorted(got.keys()) == sorted(exp["texts"]), "text names")
        H.check(all("".join(got[k]) == t for k, t in exp["texts"].items()), "texts")
    elif op == "texts-some":
        names = H.choose(nm, [["title"], ["nowhere", "main"]]) if few else \
            [k for k in ("title", "nowhere", "main") if H.bool(nm + k)]
        if names:
            got = md.texts(*names)
            H.check(sorted(got.keys()) == sorted(k for k in exp["texts"] if k in names), "names of chosen texts")
            H.check(all("".join(got[k]) == exp["texts"][k] for k in got), "chosen texts")
    elif op == "document":
        docs.same(H, m, md.document(), exp, "document")
    elif op == "layers":
        if few:
            names = H.choose(nm, [["sent"], ["tok"], ["sent", "tok"]])
        else:
            names = [l for g in GROUPS if H.bool(nm + g[0]) for l in g if l in exp["layers"]]
            if bool(H.bool(nm + "rev")):
                names.reverse()
        if names:
            part = dict(exp, layers={k: v for k, v in exp["layers"].items() if k in names})
            docs.same(H, m, md.document(*names), part, "chosen layers")
    elif op == "binary":
        H.check(md.binary() == data, "encoded bytes")
        H.check(md.ref == (7, 8), "reference")
    elif op == "copy":
        md = copied(H, md)
        H.check(md.binary() == data, "encoded bytes of a copy")
        H.check(md.ref == (7, 8), "reference of a copy")
    elif op == "wrap":
        c = H.load("docria.codec")
        w = c.MsgpackDocument(md.binary(), ref=md.ref)
        H.check(w.binary() == data and w.ref == (7, 8), "encoded bytes and reference after wrapping again")
        docs.same(H, m, c.MsgpackCodec.decode(w.binary()), exp, "decoded bytes")
    return md


OPS = ["props", "props-some", "schema", "texts", "texts-some", "document", "layers", "binary", "copy", "wrap"]


def single(H, how, op, nprops, ntexts):
    m = H.load("docria.model")
    exp = sample(H, False, nprops, ntexts)
    md, data, _ = make(H, exp, how)
    md = access(H, m, md, exp, op, "x", data)
    access(H, m, md, exp, "document", "y", data)


def history(H, how, ops, first):
    m = H.load("docria.model")
    exp = {"props": {"one": H.int("p1", -2 ** 31, 2 ** 31), "two": "x"}, "texts": {"main": H.text("t", 3, 10), "title": "abc"},
           "layers": {"tok": ({"s": ("span", "main")}, [{"s": ("span", "main", 1, 2)}]),
                      "sent": ({"r": ("ref", "sent")}, [{"r": ("ref", "sent", 1)}, {}])}}
    md, data, _ = make(H, exp, how)
    md = access(H, m, md, exp, first, "o0", data, True)
    for o in range(1, ops):
        md = access(H, m, md, exp, H.choose("op%d" % o, OPS), "o%d" % o, data, True)


def state(H):
    """the pickling state of a document and of an encoded one, and what is read back is what was there"""
    m, c = H.load("docria.model"), H.load("docria.codec")
    exp = sample(H)
    md, data, doc = make(H, exp, "bytes")
    docs.same(H, m, copied(H, doc), exp, "a document from its pickling state")
    docs.same(H, m, copied(H, md).document(), exp, "an encoded document from its pickling state")
    d2 = copied(H, copied(H, doc))
    H.check(c.MsgpackCodec.encode(d2) == data, "encoding of a copy of a copy")
    md2 = copied(H, copied(H, md))
    H.check(md2.binary() == data and md2.ref == (7, 8), "encoded bytes of a copy of a copy")
    d2["solo"].add(f=2.0)
    docs.same(H, m, doc, exp, "the original", ids=False)
    docs.same(H, m, md.document(), exp, "the encoded original")


def wide(H, n):
    """many properties, texts, layers and nodes: any one of them"""
    m, c = H.load("docria.model"), H.load("docria.codec")
    at = H.choose("at", sorted({0, n // 2, n - 1}))
    t, v = H.text("t", 3, 300), H.int("v", -2 ** 31, 2 ** 31 - 1)
    exp = {"props": {"p%d" % i: i for i in range(n)}, "texts": {"t%d" % i: "text %d" % i for i in range(n)}, "layers": {}}
    for i in range(n):
        k = "l%d" % i
        exp["layers"][k] = ({"s": ("span", "t%d" % i), "r": ("ref", k), "v": ("i32", None)},
                            [{"s": ("span", "t%d" % i, 1, 3)}] * (i % 3) + [{"r": ("ref", k, 0), "v": ("p", i)}])
    exp["props"]["p%d" % at] = t
    exp["texts"]["t%d" % at] = t
    exp["layers"]["l%d" % at][1][-1]["v"] = ("p", v)
    md, data, _ = make(H, exp, H.choose("how", ["bytes", "stream", "document"]))
    some = sorted({0, at, max(at - 1, 0), n - 1})
    H.check(dict(md.properties(*["p%d" % i for i in some])) == {"p%d" % i: exp["props"]["p%d" % i] for i in some}, "chosen properties")
    H.check(dict(md.properties("p%d" % at, "zz", "p%d" % at)) == {"p%d" % at: t}, "chosen properties, one of them unknown")
    H.check(dict(md.properties()) == exp["props"], "properties")
    got = md.texts("t%d" % at, "zz", "t0")
    H.check(sorted(got) == sorted({"t%d" % at, "t0"}) and all("".join(got[k]) == exp["texts"][k] for k in got), "chosen texts")
    H.check({k: "".join(x) for k, x in md.texts().items()} == exp["texts"], "texts")
    names = ["l%d" % i for i in some]
    docs.same(H, m, md.document(*names), dict(exp, layers={k: x for k, x in exp["layers"].items() if k in names}), "chosen layers")
    ls, sch = md.schema()
    H.check(list(ls) == list(exp["layers"]) and len(sch) == n, "layers of the schema")
    docs.same(H, m, md.document(), exp, "document")
    H.check(md.binary() == data, "encoded bytes")


def separate(H):
    """documents decoded from one encoded document are independent"""
    m = H.load("docria.model")
    exp = sample(H, True)
    md, data, _ = make(H, exp, "bytes")
    a = md.document()
    a["solo"].first()["f"] = -1.0
    a["tok"].first().detach()
    a.props["one"] = "changed"
    del a.texts["title"]
    docs.same(H, m, md.document(), exp, "decoded again")
    H.check(dict(md.properties()) == exp["props"], "properties")
    H.check(md.binary() == data, "encoded bytes")


def JOBS(tier):
    q = tier == "quick"
    js = []
    for op in OPS:
        js.append(("single", {"how": "bytes", "op": op, "nprops": 5, "ntexts": 2}))
        js.append(("single", {"how": "file", "op": op, "nprops": 5, "ntexts": 2}))
        for np, nt in ((0, 1), (1, 0), (0, 0)):
            js.append(("single", {"how": "document", "op": op, "nprops": np, "ntexts": nt}))
        for how in ("bytes", "stream", "file", "state"):
            js.append(("history", {"how": how, "ops": (3 if how == "bytes" else 2) if q else 4 if how == "bytes" else 3,
                                   "first": op}))
    js += [("wide", {"n": 40 if q else 300})]
    js += [("state",), ("separate",)]
    return js
