"""C02: JSON encoding round-trips every JSON-representable document."""
import docs
import c01

BOUNDS = {"quick": "as C01 for the JSON-representable types: texts of 0..30000 characters with 2 spans (1 in each of two texts), "
                   "2 values of every plain type except bytes, reference graphs over two layers of up to 2 nodes, one removal, "
                   "retain, sort or addition on layers of 3 nodes, properties of every JSON kind, 0..17 layers, fields, "
                   "properties, texts, nodes; 40 and 300 nodes with any value and chosen references at chosen places; strings of 2 arbitrary characters (quotes, controls, non-BMP)",
          "thorough": "3 spans, 3 values, reference graphs up to 3 nodes, layers of 4 nodes with two operations"}
OUTSIDE = ("EXT fields, byte strings and property values that JSON changes (tuples, non-string keys); lone surrogates, NaN and "
           "infinities; texts over 30000 characters, layers over 20 nodes in other shapes than those named")
ASSUMPTIONS = ["json.loads(json.dumps(x)) is x for JSON values and changes others as documented (contract in sx/stubs/texty.py)."]

PLAIN = [t for t in docs.PLAIN if t != "bin"]


def run(H, exp, m=None, doc=None):
    m = H.load("docria.model")
    c = H.load("docria.codec")
    if doc is None:
        doc, _ = docs.build(H, m, exp)
    data = c.JsonCodec.encode(doc)
    H.check(isinstance(data, str), "encoding gives a string")
    docs.same(H, m, doc, exp, "the original after encoding", ids=False, empty_may_vanish=False)
    d2 = c.JsonCodec.decode(data)
    docs.same(H, m, d2, exp, "decoded")
    docs.same(H, m, c.JsonCodec.decode(data), exp, "decoded again")
    d3 = c.JsonCodec.decode_object(c.JsonCodec.encode_object(doc))
    docs.same(H, m, d3, exp, "decoded from the object")
    docs.same(H, m, c.JsonCodec.decode(c.JsonCodec.encode(d2)), exp, "encoded and decoded again")
    docs.same(H, m, c.MsgpackCodec.decode(c.MsgpackCodec.encode(d2)), exp, "passed on to the binary format")
    H.observe("doc", c01.describe(d2))


def spans(H, texts, per):
    run(H, docs.spans(H, texts, per))


def values(H, t, n, default=None):
    run(H, docs.values(H, t, n, default))


def strings(H, n):
    """string values and texts of arbitrary characters"""
    t = H.chars("c", n)
    exp = {"props": {"p": t}, "texts": {"main": t}, "layers": {"tok": ({"x": ("str", None), "s": ("span", "main")},
                                                                    [{"x": ("p", t), "s": ("span", "main", 0, n)},
                                                                     {"s": ("span", "main", n // 2, n // 2)}])}}
    run(H, exp)


def mixed(H, n):
    e = docs.mixed(H, n)
    for _, (fs, ns) in e["layers"].items():
        fs.pop("bin")
        for x in ns:
            x.pop("bin")
    run(H, e)


def refs(H, na, nb, maxlist, kinds):
    run(H, docs.refs(H, na, nb, maxlist, kinds))


def _swap(H, fn, **kw):
    """Runs a C01 harness with this module's round trip."""
    old = c01.run
    c01.run = run
    try:
        fn(H, **kw)
    finally:
        c01.run = old


def history(H, n, ops, sorting):
    _swap(H, c01.history, n=n, ops=ops, sorting=sorting)


def props(H, kind):
    _swap(H, c01.props, kind=kind)


def sizes(H, what, n):
    _swap(H, c01.sizes, what=what, n=n)


def wide(H, n):
    run(H, docs.wide(H, n))


def names(H):
    _swap(H, c01.names)


def JOBS(tier):
    q = tier == "quick"
    js = []
    for j in c01.JOBS(tier):
        fn, kw = j[0], (j[1] if len(j) > 1 else {})
        if fn in ("kinds", "ext") or kw.get("t") == "bin" or kw.get("kind") == "bytes":
            continue
        js.append((fn, kw))
    js.append(("strings", {"n": 1}))
    js.append(("strings", {"n": 2 if q else 3}))
    return js
