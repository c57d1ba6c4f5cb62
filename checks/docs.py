"""What a document should contain, written down independently of docria, and its comparison with a document.

Expected document: {"props": dict, "texts": {name: str}, "layers": {name: ({field: type}, [node])}} where a node is
{field: value}, a type is (kind, option) and a value is ("p", plain value), ("span", text, start, stop),
("ref", layer, index), ("many", layer, [index]) or ("nspan", layer, left, right)."""

KIND = {"i32": "I32", "i64": "I64", "f64": "F64", "bool": "BOOL", "str": "STRING", "bin": "BINARY", "ref": "NODEREF",
        "many": "NODEREF_MANY", "span": "SPAN", "nspan": "NODEREF_SPAN"}


def dtype(m, t):
    T = m.DataTypes
    k, o = t
    if k == "span":
        return T.span(o)
    if k == "ref":
        return T.noderef(o)
    if k == "many":
        return T.noderef_many(o)
    if k == "nspan":
        return T.nodespan(o)
    if k == "bin":
        return T.binary
    return {"i32": T.int32, "i64": T.int64, "f64": T.float64, "bool": T.bool, "str": T.string}[k](o)


def build(H, m, exp):
    """Builds the expected document through the public API."""
    doc = m.Document(**exp["props"]) if not exp.get("setprops") else m.Document()
    if exp.get("setprops"):
        doc.props.update(exp["props"])
    for k, t in exp["texts"].items():
        doc.add_text(k, t)
    nodes = {}
    for l, (fields, ns) in exp["layers"].items():
        L = doc.add_layer(l, **{f: dtype(m, t) for f, t in fields.items()})
        nodes[l] = [m.Node() for _ in ns]
        L.add_many(nodes[l])
    for l, (fields, ns) in exp["layers"].items():
        for n, e in zip(nodes[l], ns):
            for f in fields:
                n.pop(f, None)
            for f, v in e.items():
                n[f] = make(m, doc, nodes, v)
    return doc, nodes


def make(m, doc, nodes, v):
    k = v[0]
    if k == "p":
        return v[1]
    if k == "span":
        return doc.texts[v[1]][v[2]:v[3]]
    if k == "ref":
        return nodes[v[1]][v[2]]
    if k == "many":
        return [nodes[v[1]][i] for i in v[2]]
    return m.NodeSpan(nodes[v[1]][v[2]], nodes[v[1]][v[3]])


def same(H, m, doc, exp, what, ids=True, types=True, empty_may_vanish=True):
    """Checks that a document is the expected one."""
    H.check(dict(doc.props) == exp["props"], what + ": properties")
    H.check(sorted(doc.texts.keys()) == sorted(exp["texts"]), what + ": text names")
    for k, t in exp["texts"].items():
        H.check(str(doc.texts[k]) == t, what + ": text of " + k)
        H.check(doc.texts[k].name == k, what + ": name of text")
        H.check(doc.text[k] is doc.texts[k], what + ": text access")
    H.check(sorted(doc.layers.keys()) == sorted(exp["layers"]), what + ": layer names")
    got = {}
    for l, (fields, ns) in exp["layers"].items():
        L = doc.layers[l]
        H.check(L.name == l and L.schema.name == l, what + ": name of layer")
        H.check(sorted(L.schema.fields.keys()) == sorted(fields), what + ": fields of " + l)
        H.check(len(L) == len(ns), what + ": number of nodes of " + l)
        got[l] = [n for n in L]
        H.check(len(got[l]) == len(ns), what + ": nodes of " + l)
        for i, n in enumerate(got[l]):
            H.check(n.collection is L, what + ": layer of a node")
            if ids:
                H.check(n.i == i and L[i] is n, what + ": index of a node")
        if types:
            for f, t in fields.items():
                checktype(H, m, L.schema.fields[f], t, what)
                checktype(H, m, L.fieldtypes[f], t, what)
    for l, (fields, ns) in exp["layers"].items():
        for n, e in zip(got[l], ns):
            for f in fields:
                if f not in e:
                    H.check(f not in n and n.get(f) is None, what + ": a value that was not set")
                    continue
                v = e[f]
                if v[0] == "many" and len(v[2]) == 0 and empty_may_vanish:
                    H.check(f not in n or len(n[f]) == 0, what + ": empty reference list")
                    continue
                H.check(f in n, what + ": a value is missing")
                samevalue(H, m, doc, got, n[f], v, fields[f], what)
            H.check(all(f in fields for f in n.keys()), what + ": an undeclared field")
    return got


def checktype(H, m, dt, t, what):
    k, o = t
    H.check(dt.typename is getattr(m.DataTypeEnum, KIND[k]), what + ": declared type")
    if k == "span":
        H.check(dt.options["context"] == o, what + ": text of a span field")
    elif k in ("ref", "many", "nspan"):
        H.check(dt.options["layer"] == o, what + ": layer of a reference field")
    else:
        if o is None or k == "bin":
            H.check(dt.default() is None, what + ": default value")
        else:
            H.check(dt.default() == o, what + ": default value")


def samevalue(H, m, doc, got, x, v, t, what):
    k = v[0]
    if k == "p":
        H.check(x == v[1], what + ": value of type " + t[0])
        H.check(isinstance(x, {"i32": int, "i64": int, "f64": float, "bool": bool, "str": str, "bin": bytes}[t[0]]),
                what + ": Python type of a value")
        if t[0] in ("i32", "i64"):
            H.check(not isinstance(x, bool), what + ": Python type of an integer")
    elif k == "span":
        H.check(isinstance(x, m.TextSpan), what + ": not a span")
        H.check(x.text is doc.texts[v[1]], what + ": text of a span")
        H.check(H.And(x.start == v[2], x.stop == v[3]), what + ": offsets of a span")
    elif k == "ref":
        H.check(x is got[v[1]][v[2]], what + ": a reference points elsewhere")
    elif k == "many":
        H.check(len(x) == len(v[2]) and all(a is got[v[1]][i] for a, i in zip(x, v[2])),
                what + ": a reference list points elsewhere")
    else:
        H.check(isinstance(x, m.NodeSpan), what + ": not a node span")
        H.check(x.left is got[v[1]][v[2]] and x.right is got[v[1]][v[3]], what + ": a node span points elsewhere")


# ---------------------------------------------------------------------------------------- documents to try
PLAIN = ["i32", "i64", "f64", "bool", "str", "bin"]


def plain(H, t, nm, small=False):
    if t == "i32":
        return H.int(nm, -2 ** 31, 2 ** 31 - 1)
    if t == "i64":
        return H.int(nm, -2 ** 63, 2 ** 63 - 1)
    if t == "f64":
        return H.float(nm, -10 ** 6, 10 ** 6, 8)
    if t == "bool":
        return H.bool(nm) if not small else bool(H.bool(nm))
    if t == "str":
        return H.text(nm, 0, 30 if small else 30000)
    return H.blob(nm, 0, 30 if small else 70000)


def values(H, t, n, default=None):
    """a layer of n nodes with one field of this type, values and presence arbitrary"""
    ns = []
    for i in range(n):
        ns.append({"x": ("p", plain(H, t, "v%d" % i))} if H.bool("p%d" % i) else {})
    return {"props": {}, "texts": {}, "layers": {"tok": ({"x": (t, default)}, ns)}}


def mixed(H, n):
    """all plain field types side by side"""
    ns = []
    for i in range(n):
        e = {}
        for t in PLAIN:
            e[t] = ("p", plain(H, t, "%s%d" % (t, i), True))
        ns.append(e)
    return {"props": {}, "texts": {}, "layers": {"tok": ({t: (t, None) for t in PLAIN}, ns)}}


def spans(H, texts, per, lo=0, hi=30000, absent=True):
    """per text a layer field with any spans of a text of any length"""
    tx, fields = {}, {}
    for k in range(texts):
        tx["main" if k == 0 else "t%d" % k] = H.text("t%d" % k, lo, hi)
    ns = [{} for _ in range(per)]
    for k, (name, t) in enumerate(tx.items()):
        fields["s%d" % k] = ("span", name)
        n = H.length(t)
        for i in range(per):
            if absent and not H.bool("p%d_%d" % (k, i)):
                continue
            a, b = H.int("a%d_%d" % (k, i), 0, hi), H.int("b%d_%d" % (k, i), 0, hi)
            H.assume(H.And(a <= b, b <= n))
            ns[i]["s%d" % k] = ("span", name, a, b)
    return {"props": {}, "texts": tx, "layers": {"tok": (fields, ns)}}


def refs(H, na, nb, maxlist, kinds=("ref", "many", "nspan")):
    """two layers referring to each other and to themselves in any way"""
    la = [{} for _ in range(na)]
    lb = [{} for _ in range(nb)]
    size = {"a": na, "b": nb}

    def idx(nm, l):
        return H.concrete(H.int(nm, 0, size[l] - 1))
    fa = {"r": ("ref", "b"), "m": ("many", "a"), "q": ("nspan", "b")}
    fb = {"r": ("ref", "b"), "m": ("many", "a"), "q": ("nspan", "a")}
    fa, fb = ({f: t for f, t in d.items() if t[0] in kinds} for d in (fa, fb))
    for ln, ns, fs in (("a", la, fa), ("b", lb, fb)):
        for i in range(len(ns)):
            for f, (k, l) in fs.items():
                nm = "%s%d%s" % (ln, i, f)
                if size[l] == 0 or not H.bool(nm + "p"):
                    continue
                if k == "ref":
                    ns[i][f] = ("ref", l, idx(nm, l))
                elif k == "many":
                    c = H.concrete(H.int(nm + "n", 0, maxlist))
                    ns[i][f] = ("many", l, [idx("%s_%d" % (nm, j), l) for j in range(c)])
                else:
                    x, y = idx(nm + "l", l), idx(nm + "r", l)
                    H.assume(x <= y)
                    ns[i][f] = ("nspan", l, x, y)
    return {"props": {}, "texts": {}, "layers": {"a": (fa, la), "b": (fb, lb)}}


def wide(H, n, many=True):
    """many nodes, offsets, references and long lists, with any values at one place"""
    at = H.choose("at", sorted({0, n // 2, min(n - 1, 127), min(n - 1, 128), min(n - 1, 255), min(n - 1, 256), n - 1}))
    v = H.int("v", -2 ** 31, 2 ** 31 - 1)
    to = H.choose("to", sorted({0, min(n - 1, 127), min(n - 1, 128), min(n - 1, 256), n - 1}))
    text = "".join("abc\u00e5\u20ac\U0001f600 d"[i % 8] for i in range(2 * n))
    ns = []
    for i in range(n):
        e = {}
        if i % 3 or i == at:
            e["v"] = ("p", v if i == at else i * 37 - 3000)
        if i % 4:
            e["w"] = ("p", i)
        if i % 5 or i == at:
            e["s"] = ("span", "main", 2 * i, 2 * i + 1) if i != at else ("span", "main", min(to, i), 2 * i + 2)
        if i % 2 == 0 or i == at:
            e["r"] = ("ref", "tok", to if i == at else i * 7 % n)
        if i == at:
            e["m"] = ("many", "tok", list(range(n)) + [to, to])
            e["q"] = ("nspan", "tok", min(to, i), max(to, i))
        ns.append(e)
    fs = {"v": ("i32", None), "w": ("i64", 7), "s": ("span", "main"), "r": ("ref", "tok"), "m": ("many", "tok"), "q": ("nspan", "tok")}
    return {"props": {"list": list(range(n)), "x" * n: "y" * n}, "texts": {"main": text}, "layers": {"tok": (fs, ns)}}


# ---------------------------------------------------------------------------------------- what a document is, as plain data
def plainprop(v):
    if isinstance(v, dict):
        return ("dict", [(k, plainprop(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return ("list", [plainprop(x) for x in v])
    return v


def where(doc, n):
    """layer and position of a node, found by identity"""
    for l, L in doc.layers.items():
        for i, k in enumerate(L):
            if k is n:
                return (l, i)
    return ("nowhere", -1)


def plainvalue(m, doc, v):
    if isinstance(v, m.TextSpan):
        own = any(v.text is t for t in doc.texts.values())
        return ("span", v.text.name, v.start, v.stop, own)
    if isinstance(v, m.NodeSpan):
        return ("nspan", where(doc, v.left), where(doc, v.right))
    if isinstance(v, m.Node):
        return ("ref", where(doc, v))
    if isinstance(v, list):
        return ("many", [where(doc, x) for x in v])
    return v


def snap(m, doc):
    """properties, texts, fields and nodes of a document as plain data"""
    layers = []
    for l, L in doc.layers.items():
        fs = [(f, t.typename.name, sorted((k, o if not hasattr(o, "name") else o.name) for k, o in t.options.items() if o is not None))
              for f, t in L.schema.fields.items()]
        layers.append((l, fs, [sorted(n.keys()) for n in L], [[plainvalue(m, doc, n[f]) for f in sorted(n.keys())] for n in L]))
    return {"props": [(k, plainprop(v)) for k, v in doc.props.items()], "texts": [(k, str(t)) for k, t in doc.texts.items()],
            "layers": layers}


def equal(H, a, b, what):
    H.check(a["props"] == b["props"], what + ": properties")
    H.check(a["texts"] == b["texts"], what + ": texts")
    H.check([x[0] for x in a["layers"]] == [x[0] for x in b["layers"]], what + ": layers")
    for x, y in zip(a["layers"], b["layers"]):
        H.check(x[1] == y[1], what + ": fields of " + x[0])
        H.check(len(x[2]) == len(y[2]), what + ": number of nodes of " + x[0])
        H.check(x[2] == y[2], what + ": which fields the nodes of " + x[0] + " have")
        H.check(x[3] == y[3], what + ": values of the nodes of " + x[0])
