"""C22: Type inference and merging are sound."""
import itertools
from lib import attempt

BOUNDS = {"quick": "any boolean, 64-bit integer, float, string and blob of 0..30000 characters, any span, node, node span and node "
                   "list of up to 3 nodes of one or two layers; all pairs and triples of types with any defaults; node lists of up "
                   "to 3 nodes of up to 3 layers with one shared field of any types, and of unattached nodes, and both together; lists of 140 nodes of which one has another type",
          "thorough": "node lists over 4 layers"}
OUTSIDE = "integers beyond 64 bits; extension values; nodes of no layer as values"
ASSUMPTIONS = []
NUM = ["bool", "i32", "i64", "f64"]
ALL = NUM + ["str", "bin", "span", "span2", "ref", "ref2", "many", "many2", "nspan", "nspan2"]
KIND = {"i32": "I32", "i64": "I64", "f64": "F64", "bool": "BOOL", "str": "STRING", "bin": "BINARY", "ref": "NODEREF",
        "many": "NODEREF_MANY", "span": "SPAN", "nspan": "NODEREF_SPAN"}


def base(t):
    return t if t == "i32" else t.rstrip("2")


def kind(m, t):
    return getattr(m.DataTypeEnum, KIND[base(t)])


def make(H, m, t, nm, default=None):
    T = m.DataTypes
    if t in ("i32", "i64", "f64", "bool", "str"):
        fac = {"i32": T.int32, "i64": T.int64, "f64": T.float64, "bool": T.bool, "str": T.string}[t]
        if default is None:
            return fac(None)
        if default == "std":
            return fac()
        v = {"i32": lambda: H.int(nm, -2 ** 31, 2 ** 31 - 1), "i64": lambda: H.int(nm, -2 ** 63, 2 ** 63 - 1),
             "f64": lambda: H.float(nm, -100, 100, 8), "bool": lambda: bool(H.bool(nm)), "str": lambda: H.text(nm, 0, 9)}[t]()
        return fac(v)
    two = base(t) != t
    l = "b" if two else "a"
    return {"bin": lambda: T.binary, "span": lambda: T.span("other" if two else "main"), "ref": lambda: T.noderef(l),
            "many": lambda: T.noderef_many(l), "nspan": lambda: T.nodespan(l)}[base(t)]()


def document(H, m):
    doc = m.Document()
    texts = {"main": doc.add_text("main", H.text("t", 0, 30000)), "other": doc.add_text("other", H.text("u", 0, 30000))}
    a, b = doc.add_layer("a"), doc.add_layer("b")
    nodes = {"a": [a.add(), a.add()], "b": [b.add(), b.add()]}
    return doc, texts, nodes


def value(H, m, t, nm, doc, texts, nodes):
    if t == "bool":
        return bool(H.bool(nm))
    if t in ("i32", "i64"):
        n = 2 ** 31 if t == "i32" else 2 ** 63
        return H.int(nm, -n, n - 1)
    if t == "f64":
        return H.float(nm, -10 ** 6, 10 ** 6, 8)
    if t == "str":
        return H.text(nm, 0, 30000)
    if t == "bin":
        return H.blob(nm, 0, 30000)
    two = base(t) != t
    ns = nodes["b" if two else "a"]
    if t.startswith("span"):
        x = texts["other" if two else "main"]
        i, j = H.int(nm + "s", 0, 30000), H.int(nm + "e", 0, 30000)
        H.assume(H.And(i <= j, j <= H.length(str(x))))
        return x[i:j]
    if t.startswith("ref"):
        return H.choose(nm, ns)
    if t.startswith("many"):
        return [H.choose("%s%d" % (nm, k), ns) for k in range(H.concrete(H.int(nm + "n", 1, 3)))]
    i, j = H.concrete(H.int(nm + "l", 0, 1)), H.concrete(H.int(nm + "r", 0, 1))
    H.assume(i <= j)
    return m.NodeSpan(ns[i], ns[j])


def inferred(H, t, compare=None):
    m = H.load("docria.model")
    doc, texts, nodes = document(H, m)
    v = value(H, m, t, "v", doc, texts, nodes)
    T = m.DataTypes
    dt = T.typeof(v) if compare is None else T.typeof(v, make(H, m, compare, "c", "std"))
    H.check(dt.is_valid(v), "the inferred type refuses the value")
    want = [kind(m, t)]
    if t in ("i32", "i64"):
        want = [m.DataTypeEnum.I64] if compare is None else [m.DataTypeEnum.I32, m.DataTypeEnum.I64]
    H.check(any(dt.typename is w for w in want), "the inferred type")
    if base(t) not in ("bool", "i32", "i64", "f64", "str", "bin"):
        H.check(dt == make(H, m, t, "x"), "the inferred type")
    H.observe("t", str(dt.typename))


def lists(H):
    m = H.load("docria.model")
    doc, texts, nodes = document(H, m)
    pool = nodes["a"] + nodes["b"]
    n = H.concrete(H.int("n", 0, 3))
    v = [H.choose("x%d" % i, pool) for i in range(n)]
    many = m.DataTypes.noderef_many("b")
    ok, dt = attempt(lambda: m.DataTypes.typeof(v, many) if H.bool("c") else m.DataTypes.typeof(v))
    same = len({x.collection.name for x in v}) <= 1
    H.check(ok == same, "a list of nodes of two layers has a type, or one of a single layer has none")
    if ok:
        H.check(dt.typename is m.DataTypeEnum.NODEREF_MANY and dt.is_valid(v), "the inferred type of a node list")
        if v:
            H.check(dt == m.DataTypes.noderef_many(v[0].collection.name), "the layer of a node list")
    for bad in ([1], [v], (), {}, None, object()):
        H.check(not attempt(lambda: m.DataTypes.typeof(bad))[0], "a value of no type was given one")


def rank(m, t):
    e = m.DataTypeEnum
    return [e.BOOL, e.I32, e.I64, e.F64].index(t)


def merging(H, ts, defaults):
    m = H.load("docria.model")
    d = [make(H, m, t, "d%d" % i, x) for i, (t, x) in enumerate(zip(ts, defaults))]
    e = m.DataTypeEnum
    a, b = d[0], d[1]
    num = all(t in NUM for t in ts)
    H.check(a.cast_up_possible(b) == b.cast_up_possible(a), "one type can be merged with the other but not the other way")
    H.check(bool(a.cast_up_possible(b)) == (kind(m, ts[0]) is kind(m, ts[1]) or all(t in NUM for t in ts[:2])),
            "types that can be merged")
    if not num:
        return
    r, s = a.cast_up(b), b.cast_up(a)
    H.check(r.typename is s.typename, "the order of merging matters")
    H.check(rank(m, r.typename) == max(rank(m, a.typename), rank(m, b.typename)), "the merged type is not the wider one")
    H.check(any(r is x for x in (a, b)) and any(s is x for x in (a, b)), "the merged type is neither")
    if len(d) == 3:
        c = d[2]
        x, y = a.cast_up(b).cast_up(c), a.cast_up(b.cast_up(c))
        H.check(x.typename is y.typename, "merging is not associative")
        H.check(rank(m, x.typename) == max(rank(m, q.typename) for q in d), "the merged type is not the widest one")


def equality(H, t, u, default):
    m = H.load("docria.model")
    x, y = make(H, m, t, "x", default), make(H, m, u, "y", default)
    r = bool(x == y)
    H.check(bool(y == x) == r and bool(x != y) == (not r), "equality is not symmetric")
    H.check(x == x and y == y, "equality is not reflexive")
    if kind(m, t) is not kind(m, u):
        H.check(not r, "types of different kinds are equal")
    elif default != "any":
        H.check(r == (t == u), "equality of types")
    else:
        H.check(r == (x.default() == y.default()), "equality of types with defaults")
    if r:
        H.check(hash(x) == hash(y), "equal types with different hashes")
        H.check(len({x, y}) == 1, "equal types are different set elements")
    H.observe("r", r)


def nodelist(H, ts, picks, default):
    """layer k declares field x with type ts[k] (None: does not declare it); picks: the layers of the nodes"""
    m = H.load("docria.model")
    doc, texts, nodes = document(H, m)
    layers = []
    for k, t in enumerate(ts):
        fs = {"y%d" % k: m.DataTypes.int32()}
        if t is not None:
            fs["x"] = make(H, m, t, "d%d" % k, default)
        layers.append(doc.add_layer("l%d" % k, **fs))
    elems = []
    for i, k in enumerate(picks):
        n = layers[k].add()
        n.pop("x", None)
        if ts[k] is not None and H.bool("p%d" % i):
            n["x"] = value(H, m, ts[k], "v%d" % i, doc, texts, nodes)
        elems.append(n)
    used = sorted(set(picks))
    decl = [ts[k] for k in used if ts[k] is not None]
    kinds = []
    for t in decl:
        if kind(m, t) not in kinds:
            kinds.append(kind(m, t))
    mergeable = len(kinds) <= 1 or all(t in NUM for t in decl)
    ok, r = attempt(lambda: m.NodeList(elems))
    H.check(ok == mergeable, "a node list with types that cannot be merged, or refused with types that can")
    if not ok:
        return
    H.check(len(r) == len(elems) and all(p is q for p, q in zip(r, elems)), "the nodes of the list")
    H.check(sorted(r.fieldtypes.keys()) == sorted((["x"] if decl else []) + ["y%d" % k for k in used]), "the fields of the list")
    if decl:
        dt = r.fieldtypes["x"]
        if len(kinds) == 1:
            H.check(dt.typename is kinds[0], "the type of a field")
            for n in elems:
                if "x" in n:
                    H.check(dt.is_valid(n["x"]), "the type of a field refuses a value of it")
            H.check(attempt(lambda: r.validate())[0], "a valid node list fails validation")
        else:
            H.check(rank(m, dt.typename) == max(rank(m, k) for k in kinds), "the type of a field is not the widest one")
        if len(set(decl)) == 1 and (default != "any" or len(used) == 1):
            H.check(dt == layers[[k for k in used if ts[k] is not None][0]].schema.fields["x"], "the only type there is")
        vals = [v for v in r["x"]]
        H.check(len(vals) == len(elems) and all((v is None) == ("x" not in n) for v, n in zip(vals, elems)), "the values of a field")
    H.observe("n", len(r))


def wide(H, n, t, u):
    """many nodes, all of one type but one"""
    m = H.load("docria.model")
    doc, texts, nodes = document(H, m)
    A = doc.add_layer("la", x=make(H, m, t, "d", None))
    B = doc.add_layer("lb", x=make(H, m, u, "e", None))
    at = H.choose("at", sorted({0, n // 2, n - 1}))
    v, w = value(H, m, t, "v", doc, texts, nodes), value(H, m, u, "w", doc, texts, nodes)
    how = H.choose("how", ["attached", "unattached"])
    elems = []
    for i in range(n):
        x = m.Node() if how == "unattached" else (B if i == at else A).add()
        if i % 3 or i == at or how == "unattached":
            x["x"] = w if i == at else v
        elems.append(x)
    ok, r = attempt(lambda: m.NodeList(elems))
    same = kind(m, t) is kind(m, u)
    if how == "unattached":
        same = same or {t, u} == {"i32", "i64"}
    H.check(ok == (same or (t in NUM and u in NUM)), "a node list with types that cannot be merged, or refused with types that can")
    if ok:
        dt = r.fieldtypes["x"]
        H.check(len(r) == n and list(r.fieldtypes) == ["x"], "the nodes and fields of the list")
        if same:
            H.check(dt.typename is (m.DataTypeEnum.I64 if how == "unattached" and t in ("i32", "i64") else kind(m, t)), "the type of a field")
            H.check(attempt(lambda: r.validate())[0], "a valid node list fails validation")
        else:
            x = [m.DataTypeEnum.I64 if how == "unattached" and k == "i32" else kind(m, k) for k in (t, u)]
            order = [m.DataTypeEnum.BOOL, m.DataTypeEnum.I32, m.DataTypeEnum.I64, m.DataTypeEnum.F64]
            H.check(order.index(dt.typename) == max(order.index(k) for k in x), "the type of a field is not the widest one")


def unattached(H, ts):
    m = H.load("docria.model")
    doc, texts, nodes = document(H, m)
    elems = []
    for i, t in enumerate(ts):
        elems.append(m.Node(**({"x": value(H, m, t, "v%d" % i, doc, texts, nodes)} if t else {})))
    decl = ["i64" if t == "i32" else t for t in ts if t]
    kinds = {KIND[base(t)] for t in decl}
    mergeable = len(kinds) <= 1 or all(t in NUM for t in decl)
    ok, r = attempt(lambda: m.NodeList(elems))
    H.check(ok == mergeable, "a node list with types that cannot be merged, or refused with types that can")
    if ok:
        H.check(list(r.fieldtypes.keys()) == (["x"] if decl else []), "the fields of the list")
        if len(kinds) == 1:
            H.check(r.fieldtypes["x"].typename is kind(m, decl[0]), "the type of a field")
            H.check(all("x" not in n or r.fieldtypes["x"].is_valid(n["x"]) for n in elems), "the type of a field refuses a value")
        elif decl:
            H.check(rank(m, r.fieldtypes["x"].typename) == max(rank(m, kind(m, t)) for t in decl), "the widest type")


def together(H, ts, us, picks, default):
    """attached nodes (as in nodelist) and unattached ones with values of types us, in any order"""
    m = H.load("docria.model")
    doc, texts, nodes = document(H, m)
    layers = [doc.add_layer("l%d" % k, x=make(H, m, t, "d%d" % k, default)) for k, t in enumerate(ts)]
    elems = []
    for i, k in enumerate(picks):
        if k is None:
            elems.append(m.Node(x=value(H, m, us[i], "v%d" % i, doc, texts, nodes)))
        else:
            n = layers[k].add()
            n.pop("x", None)
            if H.bool("p%d" % i):
                n["x"] = value(H, m, ts[k], "v%d" % i, doc, texts, nodes)
            elems.append(n)
    decl = [("i64" if us[i] == "i32" else us[i]) if k is None else ts[k] for i, k in enumerate(picks)]
    kinds = {KIND[base(t)] for t in decl}
    mergeable = len(kinds) <= 1 or all(t in NUM for t in decl)
    ok, r = attempt(lambda: m.NodeList(elems))
    H.check(ok == mergeable, "a node list with types that cannot be merged, or refused with types that can")
    if ok:
        H.check(list(r.fieldtypes.keys()) == ["x"], "the fields of the list")
        dt = r.fieldtypes["x"]
        if len(kinds) == 1:
            H.check(dt.typename is kind(m, decl[0]), "the type of a field")
            H.check(all("x" not in n or dt.is_valid(n["x"]) for n in elems), "the type of a field refuses a value")
        else:
            H.check(rank(m, dt.typename) == max(rank(m, kind(m, t)) for t in decl), "the type of a field is not the widest one")


def given(H):
    """given field types are kept; anything but nodes is refused"""
    m = H.load("docria.model")
    doc, texts, nodes = document(H, m)
    ft = {"q": m.DataTypes.int32()}
    r = m.NodeList(nodes["a"], fieldtypes=ft)
    H.check(list(r.fieldtypes.keys()) == ["q"] and len(r) == 2, "given field types")
    H.check(len(m.NodeList()) == 0 and not m.NodeList().fieldtypes, "the empty node list")
    for bad in ([1], [None], nodes["a"] + ["x"]):
        H.check(not attempt(lambda: m.NodeList(bad))[0], "a node list of something else")


def JOBS(tier):
    q = tier == "quick"
    js = [("lists",), ("given",)]
    for t in ALL:
        js.append(("inferred", {"t": t}))
        for c in ("i32", "i64", "f64", "str", "many"):
            js.append(("inferred", {"t": t, "compare": c}))
    for a, b in itertools.product(ALL, repeat=2):
        js.append(("merging", {"ts": [a, b], "defaults": [None, "std"]}))
        js.append(("equality", {"t": a, "u": b, "default": None}))
        js.append(("equality", {"t": a, "u": b, "default": "std"}))
    for a in NUM + ["str"]:
        js.append(("equality", {"t": a, "u": a, "default": "any"}))
        js.append(("merging", {"ts": [a, a], "defaults": ["any", "any"]}))
    for ts in itertools.product(NUM, repeat=3):
        js.append(("merging", {"ts": list(ts), "defaults": [None, "std", "any"]}))
    for a, b in itertools.product(ALL + [None], repeat=2):
        js.append(("nodelist", {"ts": [a, b], "picks": [0, 1], "default": None}))
        js.append(("nodelist", {"ts": [a, b], "picks": [1, 0], "default": "std"}))
    for a in NUM + ["str"]:
        js.append(("nodelist", {"ts": [a, a], "picks": [0, 1], "default": "any"}))
    for ts in itertools.product(NUM + ["str", "span", "span2"], repeat=3):
        js.append(("nodelist", {"ts": list(ts), "picks": [0, 1, 2], "default": None}))
    js.append(("nodelist", {"ts": ["i32", "span"], "picks": [0, 0, 0], "default": "std"}))
    js.append(("nodelist", {"ts": ["ref", "ref2"], "picks": [1, 1, 1], "default": "std"}))
    for ts in itertools.product(ALL + [None], repeat=2):
        js.append(("unattached", {"ts": list(ts)}))
    for ts in itertools.product(NUM + ["str"], repeat=3):
        js.append(("unattached", {"ts": list(ts)}))
    for a, b in itertools.product(ALL, repeat=2):
        js.append(("together", {"ts": [a], "us": [None, b], "picks": [0, None], "default": "std"}))
    for a, b, c in itertools.product(NUM + ["str"], repeat=3):
        js.append(("together", {"ts": [a, b], "us": [None, c, None], "picks": [1, None, 0], "default": None}))
    for a, b in itertools.product(NUM + ["str", "ref"], repeat=2):
        js.append(("wide", {"n": 140, "t": a, "u": b}))
    if not q:
        for ts in itertools.product(NUM + ["ref", "ref2"], repeat=4):
            js.append(("nodelist", {"ts": list(ts), "picks": [3, 1, 0, 2], "default": "std"}))
    return js
