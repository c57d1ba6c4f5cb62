"""C25: Reading, encoding and printing never change a document."""
import c24
import docs
from lib import attempt

BOUNDS = {"quick": "documents of two layers of up to 4 nodes with any integer values, any span offsets, references of each kind and nested properties, "
                   "one node removed before or not, possibly with a wrong value, an undeclared field or a reference to a removed node; "
                   "every pair out of 29 operations that read (encoding to each format with each option, accepted or refused, writing to "
                   "collections, queries, traversals, grouping, printing, validation, copying); each of them with layers of over 140 nodes",
          "thorough": "every sequence of 3 such operations"}
OUTSIDE = "the index of a node, which encoding may renumber (to its position); user functions that change nodes"
ASSUMPTIONS = []

READS = ["msgpack", "msgpack_extra", "msgpack_untyped", "json", "xml", "xml_verbose", "wrap", "pickle", "copy", "write", "tar", "compile",
         "validate", "str", "html", "repr", "schema", "query", "columns", "nodelist", "spans", "neighbours", "group", "dominant", "walk",
         "inference", "fld", "translate", "texts"]


def read(H, m, doc, op, k):
    c, a = H.load("docria.codec"), H.load("docria.algorithm")
    T = m.DataTypes
    tok, dep = doc["tok"], doc["dep"]
    if op == "msgpack":
        return c.MsgpackCodec.encode(doc)
    if op == "msgpack_extra":
        return c.MsgpackCodec.encode(doc, extra_fields_ok=True)
    if op == "msgpack_untyped":
        return c.MsgpackCodec.encode(doc, type_validation=False, extra_fields_ok=True)
    if op == "json":
        return c.JsonCodec.encode(doc)
    if op in ("xml", "xml_verbose"):
        return c.XmlCodec.encode_utf8string(doc, verbose=op == "xml_verbose", verbose_node_spans=op == "xml_verbose")
    if op == "wrap":
        w = c.MsgpackDocument(doc)
        return [w.properties(), w.binary()]
    if op == "pickle":
        import pickle
        return pickle.dumps(doc)
    if op == "copy":
        import copy
        return copy.deepcopy(doc)
    if op in ("write", "tar"):
        col = H.load("docria.collection")
        if op == "tar":
            w = col.TarMsgpackWriter("%s/x%d.tar" % (H.tmpdir(), k))
        else:
            w = col.MsgpackDocumentWriter("%s/x%d.docria" % (H.tmpdir(), k), codec=col.get_codec("none"))
        try:
            w.write(doc)
        finally:
            w.close()
    if op == "compile":
        return doc.compile()
    if op == "validate":
        return [n.is_valid() for n in tok] + [n.is_dangling() for n in dep] + [x.validate(x.first()) for x in (tok, dep)]
    if op == "str":
        return [str(x) for x in (doc, tok, dep, tok.first(), dep.first(), tok[tok["v"] == 1], tok["v"], doc.maintext)]
    if op == "html":
        return [x._repr_html_() for x in (tok, dep, tok.first(), dep.first(), tok[tok["v"] == 1], tok["v"], doc.maintext)]
    if op == "repr":
        return [repr(x) for x in (doc, tok, tok.first(), dep.first(), tok["v"])]
    if op == "schema":
        return [(l, list(x.schema.fields.items())) for l, x in doc.layers.items()]
    if op == "query":
        q = tok[(tok["v"] >= 0) & tok["s"].has_value() | tok["w"].is_none()]
        q.update()
        q.to_list().pop(0)
        return [q.to_list(), [n for n in tok[~(tok["v"] == 1)]], q.first(), len(tok[tok["s"].covered_by(0, 9)]),
                tok[tok["s"].intersected_by(0, 1)].to_list(), tok[tok["v"].is_any(1, 7)].to_list()]
    if op == "columns":
        tok["v"].to_list().pop()
        return [tok["v"].to_list(), [v for v in tok["s"]], tok[0:2]["v"].to_list(), list(tok[-1].items()), tok["v"][0], len(tok["w"]), tok["v"].dtype]
    if op == "nodelist":
        l = tok.to_list()
        for x in (l, tok[:], tok[0:], dep[:], dep[-2:], dep.to_list()[:], tok[tok["s"].has_value()].to_list()):
            x.reverse()
            x.pop()
        tok[:].clear()
        return [l, tok[1:], m.NodeList([n for n in dep]), l[[0]], l[0:1]]
    if op == "spans":
        s = m.NodeSpan(tok.first(), tok.last())
        return [[n for n in s], s.first(), s.last(), len(s), list(tok.first().iter_span(tok.last()))]
    if op == "neighbours":
        return [(n.left, n.right) for n in tok]
    if op == "group":
        gs = [a.group_by_span(dep, {"t": tok}, r, "s", {"t": "s"}) for r in ("intersect", "cover")]
        for g in gs:
            for n, d in g:
                d["t"].reverse()
        return gs
    if op == "dominant":
        return [a.dominant_right_span(tok, spanfield="s"), a.dominant_right([(0, 2, "x"), (1, 3, "y")])]
    if op == "walk":
        kids = a.children_of(dep, "next")
        return [list(a.bfs(dep.first(), kids)), list(a.dfs(dep.first(), kids)), list(a.dfs_leaves(dep.first(), kids))]
    if op == "inference":
        return [T.typeof(v) for n in tok for v in n.values()]
    if op == "fld":
        return [tok.first().fld.v, tok.first().fld.nothing, dep.first().fld.head]
    if op == "translate":
        return a.sequence_to_textspans([str(doc.maintext), "x"], doc.maintext)
    if op == "texts":
        t = doc.maintext
        return [str(t[0:]), len(t), [tok.first()["s"].trim() if "s" in tok.first() else None], doc.text["main"][0:0]]
    return None


def identity(doc):
    return [(L, [n for n in L], L.schema, dict(L.schema.fields)) for L in doc.layers.values()], [t for t in doc.texts.values()]


def unchanged(H, m, doc, before, ids, what):
    docs.equal(H, docs.snap(m, doc), before, what)
    ls, ts = ids
    H.check(len(doc.layers) == len(ls) and len(doc.texts) == len(ts), what + ": layers and texts")
    for (L, ns, sc, fs), L2 in zip(ls, doc.layers.values()):
        H.check(L is L2 and L.schema is sc, what + ": another layer object")
        H.check([x is y for x, y in zip(L2, ns)] == [True] * len(ns) and len(L2) == len(ns), what + ": other nodes")
        for k, n in enumerate(L2):
            H.check(n.collection is L2 and L2[n.i] is n, what + ": index of a node")
        H.check(all(L.schema.fields[f] is t for f, t in fs.items()), what + ": types of the fields")
    H.check(all(x is y for x, y in zip(ts, doc.texts.values())), what + ": another text object")


def build(H, m, state, extra=0):
    T = m.DataTypes
    t = H.text("t", 1, 6)
    doc = m.Document(p=H.int("p", -9, 9), q=[1, {"x": "y"}], r={"k": [None]})
    doc.maintext = t
    a = H.int("a", 0, 5)
    H.assume(a < len(t))
    tok = doc.add_layer("tok", v=T.int32(7), s=T.span(), w=T.string(None))
    dep = doc.add_layer("dep", head=T.noderef("tok"), all=T.noderef_many("tok"), sp=T.nodespan("tok"), next=T.noderef_many("dep"),
                        s=T.span())
    ns = [tok.add(v=H.int("v0", -3, 9), s=doc.maintext[a:]), tok.add(w="w"), tok.add(v=1, s=doc.maintext[0:1]), tok.add()]
    if H.bool("removed"):
        tok.remove(ns.pop(1))
    ds = [dep.add(head=ns[2], all=[ns[2], ns[0], ns[2]], sp=m.NodeSpan(ns[0], ns[1]), s=doc.maintext[0:]), dep.add(head=ns[0])]
    for i in range(extra):
        ns.append(tok.add(v=i % 9))
        ds.append(dep.add(head=ns[i], all=ns[-2:]))
    ds[0]["next"] = [ds[1], ds[0]]
    ds[1]["next"] = [ds[0]]
    if state == "wrong":
        ns[1]["v"] = "text"
    elif state == "undeclared":
        ns[2]["zz"] = 4
    elif state == "gone":
        tok.remove(ns[2])
    elif state == "nolayer":
        doc.add_layer("bad", r=T.noderef("nothere"))
    elif state == "unset":
        del ns[0]["v"]
        del ns[0]["s"]
    return doc


def reading(H, state, ops, first, extra=0):
    m = H.load("docria.model")
    doc = build(H, m, state, extra)
    before, ids = docs.snap(m, doc), identity(doc)
    for k in range(ops):
        op = first if k == 0 else H.choose("op%d" % k, READS)
        r = attempt(lambda: read(H, m, doc, op, k))
        unchanged(H, m, doc, before, ids, op)
        if state == "ok":
            H.check(r[0], op + " failed on a valid document: " + (type(r[1]).__name__ if not r[0] else ""))
        if op in ("msgpack", "json") and r[0]:
            # what was returned is not tied to the document
            H.check(attempt(lambda: read(H, m, doc, op, k))[1] == r[1], op + " gives something else the second time")
        H.observe(op, r[0])


def JOBS(tier):
    q = tier == "quick"
    js = []
    for st in ("ok", "wrong", "undeclared", "gone", "nolayer", "unset"):
        for f in READS:
            js.append(("reading", {"state": st, "ops": 2 if q else 3, "first": f}))
    js += [("reading", {"state": "ok", "ops": 1, "first": f, "extra": 140}) for f in READS]
    return js
