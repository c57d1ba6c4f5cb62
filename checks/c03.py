"""C03: Only schema-valid documents are accepted for encoding."""
from lib import attempt

BOUNDS = {"quick": "every declared type against every kind of value (integers of any size up to 70 bits, floats, booleans, "
                   "strings, bytes, spans of the right and another text, nodes of the right and another layer, removed and "
                   "never added nodes, lists and spans of those, nodes moved to another layer after they were referred to, None), encoded to binary, JSON and XML, with and without "
                   "extra fields allowed, added through field values, and in a decoded document; one bad value at any "
                   "position of two layers of 3 nodes with one removed; every kind of missing layer or text, through two layers of two fields referring to any text or layer; one value of 10 kinds in one of "
                   "140 nodes or in a list of 140",
          "thorough": "as quick, layers of 4 nodes and pairs of bad values"}
OUTSIDE = "EXT fields (their values are not typed); nodes and texts of another document that carry the declared name; strings of 2^31 characters or more"
ASSUMPTIONS = ["Python counts a boolean as an integer: booleans in integer fields are not judged.",
               "A node span or node list in a node reference list field is judged as the list of its nodes."]

TYPES = ["i32", "i64", "f64", "bool", "str", "bin", "span", "ref", "many", "nspan"]
KINDS = ["int", "float", "bool", "str", "bytes", "none", "span", "span_other", "ref", "ref_other", "ref_removed",
         "ref_unbound", "list", "list0", "list_other", "list_removed", "list_junk", "nodelist", "nspan", "nspan_other",
         "nspan_removed", "nspan_reversed", "query", "column", "document", "ref_moved", "list_moved", "nspan_moved_l",
         "nspan_moved_r", "nspan_moved"]
FORMATS = ["msgpack", "json", "xml"]
OK = {("f64", "float"), ("bool", "bool"), ("str", "str"), ("bin", "bytes"), ("span", "span"), ("ref", "ref"),
      ("many", "list"), ("many", "list0"), ("many", "nodelist"), ("nspan", "nspan")}
SKIP = {("i32", "bool"), ("i64", "bool"), ("many", "nspan"), ("many", "nspan_removed"), ("many", "nspan_reversed"),
        ("many", "query"), ("many", "nspan_moved"), ("many", "nspan_moved_l"), ("many", "nspan_moved_r")}


def dtype(m, t):
    T = m.DataTypes
    return {"i32": lambda: T.int32(None), "i64": lambda: T.int64(None), "f64": lambda: T.float64(None),
            "bool": lambda: T.bool(None), "str": lambda: T.string(None), "bin": lambda: T.binary,
            "span": lambda: T.span("main"), "ref": lambda: T.noderef("ref"), "many": lambda: T.noderef_many("ref"),
            "nspan": lambda: T.nodespan("ref")}[t]()


def base(H, default=False):
    m = H.load("docria.model")
    doc = m.Document()
    doc.add_text("main", "abcdef")
    doc.add_text("title", "abcdef")
    doc.add_layer("ref", k=m.DataTypes.int32(None))
    doc.add_layer("other", k=m.DataTypes.int32(None))
    fill(doc)
    return m, doc


def fill(doc):
    for i in range(4):
        doc["ref"].add(k=i)
        doc["other"].add(k=i)


def value(H, m, doc, kind, nm):
    """A value of this kind for a field of the given document (possibly a decoded one)."""
    ref, oth = [n for n in doc["ref"]], [n for n in doc["other"]]
    if kind == "int":
        return H.int(nm, -2 ** 70, 2 ** 70)
    if kind == "float":
        return H.float(nm, -1000, 1000, 4)
    if kind == "bool":
        return bool(H.bool(nm))
    if kind == "str":
        return H.text(nm, 0, 40)
    if kind == "bytes":
        return H.blob(nm, 0, 40)
    if kind == "none":
        return None
    if kind in ("span", "span_other"):
        return doc.texts["main" if kind == "span" else "title"][1:3]
    if kind == "ref":
        return ref[1]
    if kind == "ref_other":
        return oth[1]
    if kind == "ref_unbound":
        return m.Node(k=1)
    if kind == "list":
        return [ref[2], ref[1], ref[2]]
    if kind == "list0":
        return []
    if kind == "nodelist":
        return doc["ref"][1:3]
    if kind == "list_other":
        return [ref[1], oth[1]]
    if kind == "list_junk":
        return [ref[1], 5]
    if kind == "nspan":
        return m.NodeSpan(ref[1], ref[2])
    if kind == "nspan_other":
        return m.NodeSpan(oth[1], oth[2])
    if kind == "query":
        return doc["ref"][doc["ref"]["k"] == 1]
    if kind == "column":
        return doc["ref"]["k"]
    if kind == "document":
        return doc
    if kind == "ref_removed":
        x = ref[3]
        x.detach()
        return x
    if kind == "list_removed":
        x = ref[3]
        x.detach()
        return [ref[1], x]
    if kind == "nspan_removed":
        x = m.NodeSpan(ref[1], ref[3])
        ref[3].detach()
        return x
    if kind in ("ref_moved", "list_moved"):
        ref[3].detach()
        doc["other"].add_many([ref[3]])
        return ref[3] if kind == "ref_moved" else [ref[1], ref[3]]
    if kind.startswith("nspan_moved"):
        # its ends are now in another layer, still in order
        x = m.NodeSpan(ref[1], ref[2])
        doc["other"].remove(list(doc["other"]) if kind == "nspan_moved_l" else [])
        doc["other"].compact()
        for n in {"nspan_moved_l": ref[1:2], "nspan_moved_r": ref[2:3], "nspan_moved": ref[1:3]}[kind]:
            n.detach()
            doc["other"].add_many([n])
        return x
    if kind == "nspan_reversed":
        x = m.NodeSpan(ref[1], ref[2])
        doc["ref"].sort(lambda n: -n["k"])
        return x
    raise ValueError(kind)


def acceptable(H, t, kind, v):
    if kind == "int":
        if t == "i32":
            return H.And(v >= -2 ** 31, v <= 2 ** 31 - 1)
        if t == "i64":
            return H.And(v >= -2 ** 63, v <= 2 ** 63 - 1)
        return False
    return (t, kind) in OK


def encode(H, doc, fmt, **kw):
    c = H.load("docria.codec")
    if fmt == "msgpack":
        return c.MsgpackCodec.encode(doc, **kw)
    if fmt == "json":
        return c.JsonCodec.encode(doc, **kw)
    return c.XmlCodec.encode_utf8string(doc, **kw)


def judge(H, res, want, what):
    ok, v = res
    if ok:
        H.check(want, what + ": accepted a value that is not of the declared type")
    else:
        H.check(H.Not(want), what + ": refused a value of the declared type")
    H.observe(what, ok)
    return v


def typecheck(H, t, kind, fmt, extra):
    """a value set on a node, then encoding"""
    m, doc = base(H)
    L = doc.add_layer("tok", x=dtype(m, t))
    L.add()
    n = L.add()
    L.add()
    v = value(H, m, doc, kind, "v")
    want = acceptable(H, t, kind, v)
    n["x"] = v
    kw = {}
    if extra:
        n["undeclared"] = H.int("u", 0, 3)
        kw = {"extra_fields_ok": True}
    judge(H, attempt(lambda: encode(H, doc, fmt, **kw)), want, "encode")
    # the verdict does not change when asked again, and a fixed document is accepted
    judge(H, attempt(lambda: encode(H, doc, fmt, **kw)), want, "encode again")
    del n["x"]
    judge(H, attempt(lambda: encode(H, doc, fmt, **kw)), True, "encode without the value")
    if extra:
        judge(H, attempt(lambda: encode(H, doc, fmt)), False, "encode with an undeclared field")


def adding(H, t, kind):
    """adding through field values and add_many apply the same check"""
    m, doc = base(H)
    L = doc.add_layer("tok", x=dtype(m, t))
    v = value(H, m, doc, kind, "v")
    want = acceptable(H, t, kind, v)
    judge(H, attempt(lambda: L.add(x=v)), want, "add")
    H.check(H.Iff(len(L) == 1, want), "a refused node is in the layer")
    how = H.choose("how", ["list", "generator"])
    n = m.Node(x=v)
    judge(H, attempt(lambda: L.add_many([n] if how == "list" else iter([n]))), want, "add_many")
    H.observe("n", len(L))


def decoded(H, t, kind, codec):
    """a decoded document judges as the original"""
    m, doc = base(H)
    L = doc.add_layer("tok", x=dtype(m, t))
    L.add()
    c = H.load("docria.codec")
    if codec == "msgpack":
        d2 = c.MsgpackCodec.decode(c.MsgpackCodec.encode(doc))
    elif codec == "json":
        d2 = c.JsonCodec.decode(c.JsonCodec.encode(doc))
    else:
        d2 = c.MsgpackDocument(doc).document()
    v = value(H, m, d2, kind, "v")
    want = acceptable(H, t, kind, v)
    judge(H, attempt(lambda: d2["tok"].add(x=v)), want, "add in a decoded document")
    n = [k for k in d2["tok"]][0]
    n["x"] = v
    judge(H, attempt(lambda: encode(H, d2, "msgpack")), want, "encode of a decoded document")
    del n["x"]
    n["y"] = 1
    judge(H, attempt(lambda: encode(H, d2, "msgpack")), False, "encode of a decoded document with an undeclared field")


def position(H, n, bad, fmt, pairs):
    """one wrong value (or undeclared field) anywhere in two layers of n nodes"""
    m = H.load("docria.model")
    T = m.DataTypes
    doc = m.Document()
    doc.add_text("main", "abcdef")
    doc.add_text("title", "abcdef")
    # references in both directions and within a layer
    A = doc.add_layer("a", v=T.int32(None), s=T.string(None), r=T.noderef("b"), sp=T.span("main"))
    B = doc.add_layer("b", w=T.int64(None), r=T.noderef_many("a"), q=T.nodespan("b"))
    an = [A.add(v=i, s="x") for i in range(n)]
    bn = [B.add(w=i) for i in range(n)]
    ga, gb = H.concrete(H.int("ga", 0, n - 1)), H.concrete(H.int("gb", 0, n - 1))
    A.remove(an[ga])
    B.remove(bn[gb])
    an = [x for i, x in enumerate(an) if i != ga]
    bn = [x for i, x in enumerate(bn) if i != gb]
    for x in an:
        x["r"] = bn[0]
    for x in bn:
        x["r"] = list(an)
        x["q"] = m.NodeSpan(bn[0], bn[-1])
    H.check(attempt(lambda: encode(H, doc, fmt))[0], "a valid document was refused")
    for k in range(pairs):
        nm = "p%d" % k
        i = H.concrete(H.int(nm, 0, n - 2))
        if bad == "int":
            an[i]["v"] = H.int(nm + "v", 2 ** 31, 2 ** 40)
        elif bad == "int64":
            bn[i]["w"] = 2 ** 63 + H.int(nm + "v", 0, 9)
        elif bad == "undeclared":
            an[i]["w"] = 1                        # a field of the other layer
        elif bad == "undeclared_b":
            bn[i]["sp"] = 1
        elif bad == "text":
            an[i]["sp"] = doc.texts["title"][0:1]
        elif bad == "layer":
            an[i]["r"] = an[0]
        elif bad == "list":
            bn[i]["r"] = an + [bn[0]]
        elif bad == "gone":
            # removed after it was referred to
            z = bn[-1]
            for x in bn:
                del x["q"]
            an[i]["r"] = z
            z.detach()
            bn = bn[:-1]
        elif bad == "gone_list":
            z = an[-1]
            z.detach()
            an = an[:-1]
            for j, x in enumerate(bn):
                if j != i:
                    x["r"] = []
        elif bad == "gone_span":
            z = bn[-1]
            z.detach()
            bn = bn[:-1]
            i = min(i, len(bn) - 1)
            for x in an:
                x["r"] = bn[0]
            for j, x in enumerate(bn):
                if j != i:
                    x["q"] = m.NodeSpan(bn[0], bn[0])
    H.check(not attempt(lambda: encode(H, doc, fmt))[0], "an invalid document was accepted")
    H.check(not attempt(lambda: encode(H, doc, fmt))[0], "an invalid document was accepted when tried again")


def wide(H, n, t, fmt):
    """one value of any kind in one of many nodes, or in a long list"""
    m, doc = base(H)
    good = {"i32": "int", "i64": "int", "f64": "float", "bool": "bool", "str": "str", "bin": "bytes", "span": "span", "ref": "ref",
            "many": "list", "nspan": "nspan"}[t]
    L = doc.add_layer("tok", x=dtype(m, t))
    at = H.choose("at", sorted({0, n // 2, n - 1}))
    g = value(H, m, doc, good, "g")
    H.assume(acceptable(H, t, good, g))
    kind = H.choose("kind", ["int", "str", "ref", "ref_removed", "list_other", "nspan_other", "none"] + (["long", "long_other", "long_removed"] if t == "many" else []))
    ref = doc["ref"]
    if kind.startswith("long"):
        pool = [ref.add(k=i) for i in range(n)]
        v = list(pool)
        if kind != "long":
            v[at] = doc["other"].first() if kind == "long_other" else ref.add(k=1)
        if kind == "long_removed":
            v[at].detach()
        want = kind == "long"
    else:
        H.assume((t, kind) not in SKIP)
        v = value(H, m, doc, kind, "v")
        want = acceptable(H, t, kind, v)
    ns = [L.add(**({} if i % 3 == 1 or i == at else {"x": g})) for i in range(n)]
    ns[at]["x"] = v
    H.check(H.Iff(attempt(lambda: encode(H, doc, fmt))[0], want), "acceptance of a document of many nodes")
    ns[at].pop("x")
    H.check(attempt(lambda: encode(H, doc, fmt))[0], "a valid document was refused")


def missing(H, t, fmt, n):
    """the schema refers to a text or layer that is not there"""
    m = H.load("docria.model")
    T = m.DataTypes
    doc = m.Document()
    has_text, has_layer = bool(H.bool("text")), bool(H.bool("layer"))
    if has_text:
        doc.add_text("main", "abc")
    if H.bool("other_text"):
        doc.add_text("title", "abc")
    first = bool(H.bool("first"))
    if has_layer and first:
        doc.add_layer("ref", k=T.int32(None))
    L = doc.add_layer("tok", y=T.int32(), x=dtype(m, t))
    if has_layer and not first:
        doc.add_layer("ref", k=T.int32(None))
    for _ in range(n):
        L.add()
    want = has_text if t == "span" else has_layer if t in ("ref", "many", "nspan") else True
    extra = bool(H.bool("extra"))
    tv = bool(H.bool("tv"))
    kw = {} if fmt == "json" else {"extra_fields_ok": extra, "type_validation": tv}
    judge(H, attempt(lambda: encode(H, doc, fmt, **kw)), want, "encode")
    if want and t in ("ref", "many", "nspan", "span"):
        if t == "span":
            del doc.texts["main"]
        else:
            del doc.layers["ref"]
        judge(H, attempt(lambda: encode(H, doc, fmt, **kw)), False, "encode after removing what the schema refers to")


def schema(H, fmt, kinds, n):
    """several fields in two layers, each referring to any text or layer, there or not"""
    m = H.load("docria.model")
    T = m.DataTypes
    doc = m.Document()
    for t in ("main", "title"):
        if H.bool("has_" + t):
            doc.add_text(t, "abc")
    want = True
    order = bool(H.bool("order"))
    names = ["a", "b"] if order else ["b", "a"]
    for ln in names:
        fields = {}
        for k in kinds:
            if k == "span":
                to = H.choose(ln + k, ["main", "title", "a", "gone"])
                fields[k] = T.span(to)
                want = want and to in doc.texts
            else:
                to = H.choose(ln + k, ["a", "b", "main", "gone"])
                fields[k] = {"ref": T.noderef, "many": T.noderef_many, "nspan": T.nodespan}[k](to)
                want = want and to in ("a", "b")
        doc.add_layer(ln, **fields)
    for ln in names:
        for _ in range(n):
            doc[ln].add_many([m.Node()])
    tv = bool(H.bool("tv"))
    kw = {} if fmt == "json" else {"type_validation": tv}
    if n == 0:
        judge(H, attempt(lambda: encode(H, doc, fmt, **kw)), want, "encode")
    elif not want:
        judge(H, attempt(lambda: encode(H, doc, fmt, **kw)), False, "encode")


def flags(H):
    """what the options switch off, and what not"""
    m = H.load("docria.model")
    T = m.DataTypes
    doc = m.Document()
    L = doc.add_layer("tok", v=T.int32(None))
    n = L.add(v=1)
    extra, tv = bool(H.bool("extra")), bool(H.bool("tv"))
    undeclared = bool(H.bool("undeclared"))
    wrong = bool(H.bool("wrong"))
    if undeclared:
        n["z"] = 1
    if wrong:
        n["v"] = 1.5
    ok, r = attempt(lambda: encode(H, doc, "msgpack", extra_fields_ok=extra, type_validation=tv))
    if wrong and not tv:
        return
    H.check(ok == (not wrong and (extra or not undeclared)), "extra fields and type checks are independent")
    if ok and undeclared:
        d2 = H.load("docria.codec").MsgpackCodec.decode(r)
        H.check(list(d2["tok"].schema.fields) == ["v"] and d2["tok"].first().get("z") is None,
                "an undeclared field was encoded")


def JOBS(tier):
    q = tier == "quick"
    js = []
    for t in TYPES:
        for k in KINDS:
            if (t, k) in SKIP:
                continue
            for f in FORMATS:
                if f == "json" and t == "bin":
                    continue
                js.append(("typecheck", {"t": t, "kind": k, "fmt": f, "extra": False}))
                if f != "json":
                    js.append(("typecheck", {"t": t, "kind": k, "fmt": f, "extra": True}))
            js.append(("adding", {"t": t, "kind": k}))
            for c in ("msgpack", "json", "lazy"):
                js.append(("decoded", {"t": t, "kind": k, "codec": c}))
        for f in FORMATS:
            for n in (0, 1):
                js.append(("missing", {"t": t, "fmt": f, "n": n}))
    for f in FORMATS:
        for ks in (["span"], ["ref", "span"], ["many", "nspan"]) if q else (["span", "many"], ["ref", "nspan"], ["span", "ref", "many"]):
            for n in (0, 1):
                js.append(("schema", {"fmt": f, "kinds": ks, "n": n}))
    for b in ("int", "int64", "undeclared", "undeclared_b", "text", "layer", "list", "gone", "gone_list", "gone_span"):
        for f in FORMATS:
            js.append(("position", {"n": 3 if q else 4, "bad": b, "fmt": f, "pairs": 1}))
            if not q and b in ("int", "int64", "undeclared", "undeclared_b", "text", "layer"):
                js.append(("position", {"n": 4, "bad": b, "fmt": f, "pairs": 2}))
    js += [("wide", {"n": 140, "t": t, "fmt": f}) for t in TYPES for f in FORMATS if (t, f) != ("bin", "json")]
    js.append(("flags",))
    return js
