"""C24: A restored document is independent of the original and behaves like it."""
import docs
from lib import attempt

BOUNDS = {"quick": "documents of two layers of up to 3 nodes with any integer values, presence and span offsets, before which one node was "
                   "removed or not, restored through binary and JSON decoding, a wrapped document, pickling, copying and deep copying (also a second time from the same wrapped document or pickle, the first one having been edited); then every "
                   "edit out of 18 kinds, for decoded ones followed by another out of 9 kinds (symbolic operands), to one and then to the other; documents of 140 nodes",
          "thorough": "sequences of 3 edits"}
OUTSIDE = "longer edit sequences; extended data"
ASSUMPTIONS = []

HOWS = ["msgpack", "json", "wrapped", "pickle", "deepcopy", "copy", "twice", "repickled"]
OPS = ["add", "add_many", "remove", "set", "unset", "sort", "retain", "drop_layer", "cascade", "drop_field", "add_field", "text",
       "prop", "nested", "refer", "compact", "wrong", "many"]
SECOND = ["add", "remove", "set", "sort", "cascade", "add_field", "text", "refer", "many"]


def base(H, m, small):
    T = m.DataTypes
    t = H.text("t", 0, 300)
    doc = m.Document(p=H.int("p", -99, 99), q=[1, {"x": "y"}])
    doc.maintext = t
    n = len(t)
    tok = doc.add_layer("tok", v=T.int32(7), s=T.span(), w=T.string(None))
    dep = doc.add_layer("dep", head=T.noderef("tok"), all=T.noderef_many("tok"), sp=T.nodespan("tok"))
    a = H.int("a", 0, 300)
    H.assume(a <= n)
    ns = [tok.add(v=H.int("v0", -9, 9), s=doc.maintext[a:]), tok.add(w="w"), tok.add(v=1)]
    if H.bool("removed"):
        tok.remove(tok.add())
        x = tok.add()
        tok.remove(ns[1])
        ns = [ns[0], ns[2], x]
    dep.add(head=ns[2], all=[ns[2], ns[0]], sp=m.NodeSpan(ns[0], ns[1]))
    dep.add(head=ns[0])
    return doc


def restore(H, doc, how):
    c = H.load("docria.codec")
    if how == "msgpack":
        return c.MsgpackCodec.decode(c.MsgpackCodec.encode(doc))
    if how == "json":
        return c.JsonCodec.decode(c.JsonCodec.encode(doc))
    if how == "wrapped":
        return c.MsgpackDocument(c.MsgpackCodec.encode(doc)).document()
    if how == "twice":                  # the second one restored from the same wrapped document
        w = c.MsgpackDocument(doc)
        d = w.document()
        d["tok"].first()["v"] = 55
        d["dep"].remove(d["dep"].first())
        d.props["q"].append(9)
        d.add_layer("more")
        return w.document()
    if how == "repickled":              # the second one restored from the same pickle
        import pickle
        p = pickle.dumps(doc)
        d = pickle.loads(p)
        d["tok"].add(w="another")
        d.props["q"][1]["x"] = 3
        return pickle.loads(p)
    if how == "pickle":
        import pickle
        return pickle.loads(pickle.dumps(doc))
    import copy
    return copy.deepcopy(doc) if how == "deepcopy" else copy.copy(doc)


def operands(H, k, op):
    nm = "o%d" % k
    if op in ("remove", "set", "unset", "refer", "nested"):
        o = [H.concrete(H.int(nm, 0, 2))]
        return o + ([H.int(nm + "v", -9, 9)] if op in ("set", "nested") else [])
    if op == "retain":
        return [[bool(H.bool(nm + "r%d" % i)) for i in range(3)]]
    if op == "text":
        return [H.choose(nm, [0, 5, 9])]
    if op in ("add", "add_field", "prop"):
        return [H.int(nm, -9, 9)]
    return []


def edit(m, doc, op, o):
    T = m.DataTypes
    tok = doc["tok"] if "tok" in doc else None
    dep = doc["dep"]
    if op == "add":
        n = tok.add(v=o[0])
        return (n.i, n.get("v"), n.get("w"), tok.last() is n)
    if op == "add_many":
        tok.add_many([m.Node(), m.Node(w="x")])
        return [n.get("v") for n in tok]
    if op == "remove":
        tok.remove([n for n in tok][o[0]])
        return len(tok)
    if op == "set":
        [n for n in tok][o[0]]["v"] = o[1]
    if op == "unset":
        del [n for n in tok][o[0]]["v"]
    if op == "sort":
        tok.sort(lambda n: n["v"])
    if op == "retain":
        tok.retain([n for n, k in zip(tok, o[0]) if k])
        return len(tok)
    if op == "drop_layer":
        return doc.remove_layer("tok")
    if op == "cascade":
        return doc.remove_layer("tok", fieldcascade=True)
    if op == "drop_field":
        return tok.remove_field("v")
    if op == "add_field":
        tok.add_field("z", T.int64(5))
        tok.first()["z"] = o[0]
        tok.add()
    if op == "text":
        t = doc.add_text("more", "some more text")
        L = doc.add_layer("more", s=T.span("more"))
        n = L.add(s=t[5:9])
        n["s"] = t[o[0]:]
        return str(n["s"])
    if op == "prop":
        doc.props["p"] = o[0]
        doc.props["new"] = {"k": [o[0]]}
    if op == "nested":
        doc.props["q"].append(o[1])
        doc.props["q"][1]["x"] = o[0]
    if op == "refer":
        d = dep.first()
        d["head"] = [n for n in tok][o[0]]
        if "all" in d:
            d["all"].append(d["head"])
        d["sp"] = m.NodeSpan(tok.first(), d["head"])
        return [docs.where(doc, n) for n in d["sp"]]
    if op == "compact":
        tok.compact()
        return [n.i for n in tok]
    if op == "wrong":
        tok.add(v="not a number")
    if op == "many":
        tok.remove([tok.first(), tok.last()])
        return len(tok)
    return None


def outcome(H, m, doc, plan):
    out = []
    for op, o in plan:
        ok, r = attempt(lambda: edit(m, doc, op, o))
        out.append((op, ok, r if ok else type(r).__name__))
    if "tok" in doc:
        tok = doc["tok"]
        out.append([docs.where(doc, n) for n in tok[tok["v"] >= 1]] if "v" in tok.schema.fields else None)
        out.append([(docs.where(doc, n.left) if n.left is not None else None, docs.where(doc, n.right) if n.right is not None else None)
                    for n in tok])
    return out


def behave(H, how, ops, first=None):
    m, c = H.load("docria.model"), H.load("docria.codec")
    doc = base(H, m, True)
    before = docs.snap(m, doc)
    d2 = restore(H, doc, how)
    H.check(isinstance(d2, m.Document), "not a document")
    docs.equal(H, docs.snap(m, d2), before, "restored")
    docs.equal(H, docs.snap(m, doc), before, "the original after restoring")
    # nothing is shared
    for l in doc.layers:
        H.check(doc[l] is not d2[l] and doc[l].schema is not d2[l].schema, "a layer is shared")
        mine = [n for n in doc[l]]
        H.check(not any(x is y for x in d2[l] for y in mine), "a node is shared")
        H.check(all(n.collection is d2[l] for n in d2[l]), "layer of a restored node")
    H.check(doc.maintext is not d2.maintext, "a text is shared")
    plan = []
    for k in range(ops):
        op = first if k == 0 and first else H.choose("op%d" % k, SECOND)
        plan.append((op, operands(H, k, op)))
    r2 = outcome(H, m, d2, plan)
    docs.equal(H, docs.snap(m, doc), before, "the original after editing the restored one")
    after = docs.snap(m, d2)
    r1 = outcome(H, m, doc, plan)
    docs.equal(H, docs.snap(m, d2), after, "the restored one after editing the original")
    for x, y in zip(r1, r2):
        H.check(x == y, "an edit has another result: " + str(x[0] if isinstance(x, tuple) else "views"))
    docs.equal(H, docs.snap(m, doc), after, "edits of original and restored")
    e1, e2 = attempt(lambda: c.MsgpackCodec.encode(doc)), attempt(lambda: c.MsgpackCodec.encode(d2))
    H.check(e1[0] == e2[0], "only one of them can be encoded")
    if e1[0]:
        H.check(e1[1] == e2[1], "they are encoded differently")
    H.observe("ok", e1[0])


def wide(H, n, how):
    """a document of many nodes, restored and then changed in both"""
    m = H.load("docria.model")
    exp = docs.wide(H, n)
    doc, _ = docs.build(H, m, exp)
    d2 = restore(H, doc, how)
    docs.same(H, m, d2, exp, "restored", ids=False)
    k = H.choose("k", sorted({0, n // 2, n - 1}))

    def change(d):
        L = d["tok"]
        x = [y for y in L][k]
        for y in L:
            for f in ("r", "m", "q"):
                y.pop(f, None)
        L.remove(x)
        L.add(v=5)
        return [y.i for y in L], [y.get("v") for y in L][k - 1:k + 1], len(L)
    a = change(d2)
    docs.same(H, m, doc, exp, "the original after editing the restored one", ids=False)
    H.check(change(doc) == a, "an edit has another result")
    docs.equal(H, docs.snap(m, doc), docs.snap(m, d2), "edits of original and restored")


def refused(H, how):
    """a document that cannot be encoded cannot be pickled or copied half"""
    m = H.load("docria.model")
    doc = base(H, m, True)
    kind = H.choose("kind", ["value", "undeclared", "removed"])
    if kind == "value":
        doc["tok"].first()["v"] = "x"
    elif kind == "undeclared":
        doc["tok"].last()["zz"] = 1
    else:
        doc["tok"].remove(doc["tok"].first())
    before = docs.snap(m, doc)
    H.check(not attempt(lambda: restore(H, doc, how))[0], "a document that is not valid was restored")
    docs.equal(H, docs.snap(m, doc), before, "after a refused copy")


def JOBS(tier):
    q = tier == "quick"
    js = []
    js += [("wide", {"n": 140, "how": how}) for how in ("msgpack", "pickle", "deepcopy")]
    for how in HOWS:
        js.append(("refused", {"how": how}))
        for f in OPS:
            if how in ("msgpack", "json") or not q:
                js.append(("behave", {"how": how, "ops": 2 if q else 3, "first": f}))
            else:
                js.append(("behave", {"how": how, "ops": 1, "first": f}))
    return js
