"""C20: XML export is faithful and well-formed."""
import base64
import docs
from lib import attempt

BOUNDS = {"quick": "three arbitrary characters, including lone surrogates and non-characters, in a string value, text, property, default "
                   "value or document id, with any span over the text; 2 values of every plain type, integers over the full "
                   "range, strings and byte strings up to 30000 / 70000 long; 2 spans in one text of 0..30000 characters or 1 in "
                   "each of two; reference graphs over two layers of up to 2 nodes, lists up to 2; nodes removed, moved and added "
                   "before the export; names with characters XML does not allow; plain and verbose, with and without a document id; 140 nodes with any value and chosen references at chosen places",
          "thorough": "four arbitrary characters, 3 spans, reference graphs up to 3 nodes"}
OUTSIDE = ("EXT fields; field names that are not XML names (known finding); texts over 30000 characters; floats that are not "
           "multiples of 1/8 or over 10^6")
ASSUMPTIONS = ["xml.etree.ElementTree writes what is in its elements and fails to parse characters that XML does not allow "
               "(contract in sx/stubs/xmlstub.py)."]
XMLID = "{http://www.w3.org/XML/1998/namespace}id"


def allowed(H, c):
    return H.Or(c == 9, c == 10, c == 13, H.And(c >= 0x20, c <= 0xD7FF), H.And(c >= 0xE000, c <= 0xFFFD), c >= 0x10000)


def samestr(H, got, s, what):
    """the characters XML allows are kept, every other is one space; s has few characters"""
    H.check(isinstance(got, str), what + " is not readable")
    n = H.concrete(H.length(s))
    H.check(H.length(got) == n, what + ": number of characters")
    for i in range(n):
        a = allowed(H, ord(s[i]))
        H.check(H.Implies(a, got[i] == s[i]), what + ": a character that XML allows is changed")
        H.check(H.Implies(H.Not(a), got[i] == " "), what + ": a character that XML does not allow is not a space")


def clean(s):
    """for literal strings"""
    return "".join(c if c in "\t\n\r" or " " <= c <= "\ud7ff" or "\ue000" <= c <= "\ufffd" or c >= "\U00010000" else " " for c in s)


def export(H, doc, docid=""):
    """[(root, verbose, verbose_node_spans)] exported in one of the modes"""
    c = H.load("docria.codec")
    verbose = H.choose("verbose", [False, True])
    vspans = H.choose("vspans", [False, True])
    k = {}
    if verbose:
        k["verbose"] = True
    if vspans:
        k["verbose_node_spans"] = True
    if docid != "":
        k["document_id"] = docid
    s = c.XmlCodec.encode_utf8string(doc, **k)
    H.check(isinstance(s, str), "the export is not a string")
    ok, root = attempt(lambda: H.xml(s))
    H.check(ok, "the export is not well-formed")
    tree = c.XmlCodec.encode_tree(doc, **k)
    sametree(H, tree.getroot(), root)
    return root, verbose, vspans


def sametree(H, a, b):
    H.check(a.tag == b.tag and sorted(a.attrib.keys()) == sorted(b.attrib.keys()) and len(a) == len(b),
            "the tree and the string differ")
    for k in a.attrib.keys():
        H.check(a.attrib[k] == b.attrib[k], "the tree and the string differ")
    for x, y in zip(a, b):
        sametree(H, x, y)


def one(H, e, tag):
    r = e.findall(tag)
    H.check(len(r) == 1, "not exactly one %s element" % tag)
    return r[0]


def equal(H, got, want, what):
    H.check(isinstance(got, str), what + " is not readable")
    H.check(got == want, what)


def verify(H, root, verbose, vspans, exp, docid="", strs=None):
    """root is the export of the expected document; strs(got, expected, what) compares the strings"""
    same = strs or (lambda g, w, what: equal(H, g, w, what))
    H.check(root.tag == "document", "root element")
    prefix = ""
    if docid != "":
        H.check(root.get(XMLID) is not None, "document id missing")
        same(root.get(XMLID), docid, "document id")
        prefix = root.get(XMLID) + "."
    else:
        H.check(root.get(XMLID) is None, "document id that was not given")
    props = one(H, root, "props").findall("prop")
    H.check(len(props) == len(exp["props"]), "number of properties")
    for e, (k, v) in zip(props, exp["props"].items()):
        same(e.get("key"), k, "property key")
        same(e.get("value"), v if isinstance(v, str) else str(v), "property value")
    schema(H, one(H, root, "schema").findall("define"), exp, same)
    segments = texts(H, one(H, root, "texts").findall("text"), verbose, exp, same)
    layers = one(H, root, "layers").findall("layer")
    H.check(len(layers) == len(exp["layers"]), "number of layers")
    for e, (l, (fields, ns)) in zip(layers, exp["layers"].items()):
        equal(H, e.get("name"), clean(l), "name of a layer")
        els = e.findall("n")
        H.check(len(els) == len(ns) and len(list(e)) == len(ns), "number of nodes")
        for i, (x, n) in enumerate(zip(els, ns)):
            equal(H, x.get(XMLID), prefix + clean(l) + "." + str(i), "id of a node")
            node(H, x, n, fields, prefix, segments, vspans, exp, same)


def schema(H, els, exp, same):
    H.check(len(els) == len(exp["layers"]), "number of layers in the schema")
    for e, (l, (fields, ns)) in zip(els, exp["layers"].items()):
        equal(H, e.get("layer"), clean(l), "layer in the schema")
        fs = {f.get("name"): f for f in e.findall("field")}
        H.check(len(fs) == len(fields) and len(e.findall("field")) == len(fields), "number of fields in the schema")
        for f, (kind, option) in fields.items():
            H.check(clean(f) in fs, "field missing in the schema")
            x = fs[clean(f)]
            args = {a.get("key"): a.get("value") for a in x.findall("arg")}
            H.check(len(x.findall("arg")) == len(args), "options of a field")
            if kind in ("ref", "many", "nspan"):
                H.check(args.get("layer") == clean(option), "layer of a reference field in the schema")
            elif kind == "span":
                H.check(args.get("context") == clean(option), "text of a span field in the schema")
            elif option is None:
                H.check("default" not in args, "default that was not declared")
            elif isinstance(option, str):
                same(args.get("default"), option, "default of a field")
            else:
                H.check(args.get("default") == str(option), "default of a field")


def texts(H, els, verbose, exp, same):
    H.check(len(els) == len(exp["texts"]), "number of texts")
    out = {}
    for e, (name, t) in zip(els, exp["texts"].items()):
        equal(H, e.get("name"), clean(name), "name of a text")
        segs = [s.get("v") for s in one(H, e, "sep").findall("s")]
        H.check(all(isinstance(s, str) for s in segs), "a text segment is not readable")
        same("".join(segs), t, "the segments do not join to the text")
        out[name] = segs
        if verbose:
            pos = 0
            for i, s in enumerate(one(H, e, "sep").findall("s")):
                H.check(int(s.get("id")) == i, "number of a segment")
                H.check(int(s.get("start")) == pos, "start of a segment")
                pos = pos + H.length(segs[i])
                H.check(int(s.get("stop")) == pos, "stop of a segment")
            same(one(H, e, "raw").get("value"), t, "the whole text")
    return out


def node(H, x, n, fields, prefix, segments, vspans, exp, same):
    kids = {}
    for c in x:
        name = c.get("key") if c.tag == "t" else c.get("name")
        H.check((c.tag, name) not in kids, "a field twice")
        kids[c.tag, name] = c
    used = 0
    attrs = 0
    for f, v in n.items():
        k = v[0]
        cf = clean(f)
        if k == "p" or k == "ref":
            a = x.get(f)
            H.check(isinstance(a, str), "a value of type %s is missing" % fields[f][0])
            attrs += 1
            plain(H, a, v[1] if k == "p" else v[2], fields[f][0] if k == "p" else "ref", same)
        elif k == "many":
            if len(v[2]) == 0 and ("a", cf) not in kids:
                continue
            H.check(("a", cf) in kids, "a reference list is missing")
            used += 1
            got = [int(e.get("v")) for e in kids["a", cf].findall("e")]
            H.check(got == list(v[2]), "a reference list")
        elif k == "nspan":
            H.check(("d", cf) in kids, "a node span is missing")
            used += 1
            d = kids["d", cf]
            for end, i in (("from", v[2]), ("to", v[3])):
                g = d.get(end)
                w = clean(v[1]) + "." + str(i)
                H.check(g == w or g == prefix + w, "an end of a node span names another node")
        else:
            H.check(("d", cf) in kids, "a span is missing")
            used += 1
            d = kids["d", cf]
            a, b = int(d.get("from")), int(d.get("until"))
            segs = segments[v[1]]
            H.check(H.And(0 <= a, a <= b, b <= len(segs)), "a span is not given by segment positions")
            t = exp["texts"][v[1]]
            same("".join(segs[H.concrete(a):H.concrete(b)]), t[v[2]:v[3]], "the segments of a span do not join to its string")
            if vspans:
                H.check(("t", cf) in kids, "the string of a span is missing")
                used += 1
                same(kids["t", cf].get("value"), t[v[2]:v[3]], "the string of a span")
    H.check(len(kids) == used, "a value that was not set")
    H.check(len([k for k in x.attrib.keys() if k != XMLID]) == attrs, "a value that was not set")


def plain(H, a, v, t, same):
    if t in ("i32", "i64", "ref"):
        H.check(int(a) == v, "a value of type " + t)
    elif t == "f64":
        H.check(float(a) == v, "a value of type " + t)
    elif t == "bool":
        H.check(a == ("True" if v else "False"), "a value of type " + t)
    elif t == "bin":
        H.check(base64.b64decode(a) == v, "a value of type " + t)
    else:
        same(a, v, "a string value")


def run(H, exp, docid="", strs=None, doc=None):
    m = H.load("docria.model")
    if doc is None:
        doc, _ = docs.build(H, m, exp)
    root, verbose, vspans = export(H, doc, docid)
    verify(H, root, verbose, vspans, exp, docid, strs)
    H.observe("nodes", [len(list(e)) for e in root.find("layers")])
    H.observe("attributes", [[v for k, v in sorted(n.attrib.items())] for e in root.find("layers") for n in e])


def chars(H, where, n, lo=0, hi=0x10ffff):
    s = H.chars("c", n, lo, hi, surrogates=True)
    exp = {"props": {"k": 1}, "texts": {"main": "ab"}, "layers": {"tok": ({"v": ("str", None), "s": ("span", "main")}, [{}, {}])}}
    docid = ""
    if where == "value":
        exp["layers"]["tok"][1][1]["v"] = ("p", s)
    elif where == "text":
        exp["texts"]["main"] = s
        for i in range(2):
            a = H.choose("a%d" % i, range(n + 1))
            b = H.choose("b%d" % i, range(n + 1))
            H.assume(a <= b)
            exp["layers"]["tok"][1][i]["s"] = ("span", "main", a, b)
    elif where == "prop":
        exp["props"] = {"k": s, "l": [1, "x"]}
    elif where == "default":
        exp["layers"]["tok"] = ({"v": ("str", s)}, [{}])
        exp["layers"]["tok"][1][0]["v"] = ("p", s)
    else:
        docid = s
    run(H, exp, docid, lambda g, w, what: samestr(H, g, w, what))


def values(H, t, n, default=None):
    run(H, docs.values(H, t, n, default), "d1" if H.choose("id", [False, True]) else "")


def mixed(H, n):
    run(H, docs.mixed(H, n))


def spans(H, k, per, hi=30000):
    run(H, docs.spans(H, k, per, hi=hi), "d1" if H.choose("id", [False, True]) else "")


def refs(H, na, nb, maxlist, kinds):
    run(H, docs.refs(H, na, nb, maxlist, kinds), "d1" if H.choose("id", [False, True]) else "")


def history(H, n, ops):
    """the ids are those of the nodes that are left, whatever happened before"""
    m = H.load("docria.model")
    T = m.DataTypes
    doc = m.Document()
    t = doc.add_text("main", "abcdef")
    L = doc.add_layer("tok", v=T.int32(None), r=T.noderef("tok"), q=T.nodespan("tok"), m=T.noderef_many("tok"), s=T.span("main"))
    nodes = [L.add(v=i, s=t[i % 5:i % 5 + 2]) for i in range(n)]
    order = list(nodes)
    for j in range(ops):
        op = H.choose("op%d" % j, ["none", "remove", "add", "sort", "retain"])
        if op == "remove":
            x = order[H.concrete(H.int("x%d" % j, 0, len(order) - 1))]
            L.remove(x)
            order.remove(x)
        elif op == "add":
            x = L.add(v=100 + j)
            order.append(x)
        elif op == "sort":
            L.sort(lambda y: -y["v"])
            order.sort(key=lambda y: -y["v"])
        elif op == "retain":
            order = order[::2]
            L.retain(list(order))
        if not order:
            order.append(L.add(v=200))
    a = H.concrete(H.int("a", 0, len(order) - 1))
    b = H.concrete(H.int("b", 0, len(order) - 1))
    lo, hi = min(a, b), max(a, b)
    order[0]["r"] = order[a]
    order[-1]["q"] = m.NodeSpan(order[lo], order[hi])
    order[b]["m"] = [order[a], order[b]]
    ns = []
    for i, x in enumerate(order):
        e = {"v": ("p", x["v"])}
        if x["v"] < 100:
            e["s"] = ("span", "main", x["v"] % 5, x["v"] % 5 + 2)
        if i == 0:
            e["r"] = ("ref", "tok", a)
        if i == len(order) - 1:
            e["q"] = ("nspan", "tok", lo, hi)
        if i == b:
            e["m"] = ("many", "tok", [a, b])
        ns.append(e)
    fields = {"v": ("i32", None), "r": ("ref", "tok"), "q": ("nspan", "tok"), "m": ("many", "tok"), "s": ("span", "main")}
    run(H, {"props": {}, "texts": {"main": "abcdef"}, "layers": {"tok": (fields, ns)}}, doc=doc)


NAMES = ["plain", "a\x01b", "<&\"'>", "x y", "\ud800", "\uffff", "\U0001F600", "a.b:c", "id", "name", ""]


def names(H):
    """names of layers, texts, properties and reference fields, where they are attribute values"""
    n = H.choose("name", NAMES)
    where = H.choose("where", ["layer", "text", "prop", "field", "id"])
    l, t, f = ("tok", "main", "s")
    if where == "layer":
        l = n
    elif where == "text":
        t = n
    elif where == "field":
        f = n
    exp = {"props": {n if where == "prop" else "k": "v"}, "texts": {t: "abc"},
           "layers": {"first": ({"r": ("ref", l), f + "2" if f else "2": ("many", l)}, [{"r": ("ref", l, 1), (f + "2" if f else "2"): ("many", l, [1, 0])}]),
                      l: ({f: ("span", t), (f + "3"): ("nspan", l), "v": ("str", None)},
                          [{f: ("span", t, 1, 2), "v": ("p", n)}, {(f + "3"): ("nspan", l, 0, 1)}])}}
    run(H, exp, n if where == "id" else "", lambda g, w, what: H.check(g == clean(w), what))


def sizes(H):
    """from nothing to many layers, texts, nodes and properties"""
    k = H.choose("k", [0, 1, 3, 12])
    exp = {"props": {"p%d" % i: i for i in range(k)}, "texts": {"t%d" % i: "ab" * i for i in range(k)},
           "layers": {"l%d" % i: ({"v": ("i32", None), "s": ("span", "t%d" % i)},
                                  [{"v": ("p", j), "s": ("span", "t%d" % i, 0, i)} for j in range(i + 1)]) for i in range(k)}}
    run(H, exp)


def wide(H, n):
    run(H, docs.wide(H, n), "d1" if H.choose("id", [False, True]) else "")


def fieldname(H):
    n = H.choose("name", ["a b", "1x", "a:b", "x<", ""])
    run(H, {"props": {}, "texts": {}, "layers": {"tok": ({n: ("i32", None)}, [{n: ("p", 1)}])}})


def JOBS(tier):
    th = tier == "thorough"
    js = [("chars", dict(where=w, n=4 if th else 3)) for w in ("value", "prop", "default", "docid")]
    js += [("chars", dict(where="text", n=3 if th else 2))]
    js += [("values", dict(t=t, n=2)) for t in docs.PLAIN]
    js += [("mixed", dict(n=2)), ("spans", dict(k=1, per=3 if th else 2)), ("spans", dict(k=2, per=1)),
           ("refs", dict(na=1, nb=2, maxlist=2, kinds=["ref", "many"])), ("refs", dict(na=2, nb=2, maxlist=1, kinds=["nspan"])),
           ("history", dict(n=4, ops=2)), ("names", {}), ("sizes", {}), ("wide", dict(n=140)), ("fieldname", {}, {"known": "C20-fieldname"})]
    if th:
        js += [("refs", dict(na=2, nb=2, maxlist=2, kinds=["ref", "many"])), ("refs", dict(na=3, nb=2, maxlist=1, kinds=["nspan"])),
               ("history", dict(n=5, ops=3))]
    return js
