"""C28: Equivalent ways to reach the same data agree."""
from lib import attempt

BOUNDS = {"quick": "nodes of a layer or of none after 3 changes (item, member, update, pop, setdefault, delete) to 2 of 3 fields with any integers and "
                   "texts of up to 3 characters; node lists of up to 4 nodes made 6 ways from a layer with or without removed nodes, read at any index from "
                   "-6 to 5, any slice with bounds from -6 to 5 and steps from -2 to 2, and any list of 2 indices; 4 changes of 7 kinds to the "
                   "layers and texts of a document; field types by name, by object and by default, with any integer, float, bool or text of up to 3 "
                   "characters as default value; chains of up to 3 functions; getters and chains as sort "
                   "keys and in queries of up to 3 nodes with any integers or none",
          "thorough": "5 changes to nodes; up to 4 nodes sorted; lists of up to 6 nodes; 5 changes to documents"}
OUTSIDE = "fields named __data__ or like a method of object; negative zero as default value; indices of a layer with removed nodes (C04)"
ASSUMPTIONS = ["fields are read through Python's attribute and item protocols as CPython calls them"]

NAMES = ["x", "items", "get"]


def same(H, a, b):
    return a is b or H.eq(a, b)


def agree(H, m, alg, n, fld, model, what):
    H.check(list(n.keys()) == list(model.keys()) and len(n) == len(model), what + ": keys")
    for f in NAMES + ["none"]:
        has = f in model
        v = model.get(f)
        H.check((f in n) == has, what + ": in")
        r = attempt(lambda: n[f])
        H.check(r[0] == has and (not has or same(H, r[1], v)), what + ": item")
        H.check(has or isinstance(r[1], KeyError), what + ": kind of error")
        for g in (n.fld, fld):
            r = attempt(lambda: getattr(g, f))
            H.check(r[0] and (r[1] is None if not has else same(H, r[1], v)), what + ": member")
        r = n.get(f)
        H.check(r is None if not has else same(H, r, v), what + ": get")
        r = alg.get_prop(f)(n)
        H.check(r is None if not has else same(H, r, v), what + ": get_prop")
        d = object()
        r = alg.get_prop(f, d)(n)
        H.check(r is d if not has else same(H, r, v), what + ": get_prop with a default")
        r = alg.get_prop(prop=f, default=d)(n)
        H.check(r is d if not has else same(H, r, v), what + ": get_prop with a named default")


def node(H, steps, bound, ops):
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    doc = m.Document()
    T = m.DataTypes
    L = doc.add_layer("tok", **{"x": T.int64(None), "items": T.string(None), "get": T.int64(None)})
    a = L.add(x=77)
    model = {}
    if bound == "add":
        n = L.add()
    elif bound == "many":
        v = H.int("v", -2 ** 40, 2 ** 40)
        n = m.Node(x=v, items="s")
        model = {"x": v, "items": "s"}
        L.add_many([n])
    else:
        n = m.Node({"get": 3})
        model = {"get": 3}
    z = L.add(x=88)
    fld = n.fld
    agree(H, m, alg, n, fld, model, "at first")
    for k in range(steps):
        op = H.choose("op%d" % k, ops)
        f = H.choose("f%d" % k, NAMES[:2])
        v = (lambda: H.int("v%d" % k, -2 ** 40, 2 ** 40) if f == "x" else H.text("v%d" % k, 0, 3))
        if op == "item":
            n[f] = model[f] = v()
        elif op == "member":
            x = v()
            setattr(fld if k % 2 else n.fld, f, x)
            model[f] = x
        elif op == "update":
            x = v()
            n.update(**{f: x, "get": k})
            model.update(**{f: x, "get": k})
        elif op == "setdefault":
            x = v()
            H.check(same(H, n.setdefault(f, x), model.setdefault(f, x)), "setdefault")
        elif op == "pop":
            r = n.pop(f, None)
            w = model.pop(f, None)
            H.check(r is None if w is None else same(H, r, w), "pop")
        else:
            def rm():
                if op == "del":
                    del n[f]
                else:
                    delattr(n.fld if k % 2 else fld, f)
            r = attempt(rm)
            H.check(r[0] == (f in model), op + ": of a field that is set or not")
            H.check(r[0] or isinstance(r[1], KeyError), op + ": kind of error")
            model.pop(f, None)
        agree(H, m, alg, n, fld, model, op)
        if bound != "none":
            nodes = [a, n, z]
            for f in NAMES:
                col = L[f]
                H.check(len(col) == 3, "length of the field of a layer")
                for c in (list(col), col.to_list(), list(L.to_list()[f]), m.NodeSpan(a, z)[f].to_list()):
                    H.check(len(c) == 3 and c[0] is nodes[0].get(f) and c[2] is nodes[2].get(f) and
                            (c[1] is None if f not in model else same(H, c[1], model[f])), "field of a layer")
                if f in model:
                    H.check(same(H, L[f][n.i], model[f]) and same(H, L.to_list()[f][1], model[f]) and same(H, L[n.i][f], model[f]),
                            "field of a layer by index")
    H.check(dict(a) == {"x": 77} and dict(z) == {"x": 88}, "another node changed")


def source(H, m, L, how, n):
    """the same nodes as a node list made in different ways, and as a plain list"""
    plain = [x for x in L]
    if how == "to_list":
        return L.to_list(), plain
    if how == "slice":
        return L[0:], plain
    if how == "nodes":
        return m.NodeList(plain), plain
    if how == "iter":
        return m.NodeList(iter(plain), fieldtypes=L.schema.fields), plain
    if how == "span":
        return (m.NodeSpan(plain[0], plain[-1]).to_list(), plain) if plain else (m.NodeList([], fieldtypes=L.schema.fields), [])
    if how == "copy":
        return L.to_list()[:].to_list(), plain
    return m.NodeList(list(reversed(plain)), fieldtypes=L.schema.fields), list(reversed(plain))


def is_list(H, m, lst, ref, fields, what):
    H.check(isinstance(lst, m.NodeList), what + ": is not a node list")
    H.check(len(lst) == len(ref) and all(x is y for x, y in zip(lst, ref)), what + ": nodes")
    H.check(lst.first() is (ref[0] if ref else None) and lst.last() is (ref[-1] if ref else None), what + ": first and last")
    H.check([x for x in reversed(lst)] == ref[::-1], what + ": reversed")
    H.check(all(x in lst for x in ref), what + ": in")
    for f in fields:
        r = attempt(lambda: lst[f])
        H.check(r[0], what + ": the field of a list raised an error")
        r = r[1].to_list()
        H.check(len(r) == len(ref) and all((x is None) if f not in y else same(H, x, y[f]) for x, y in zip(r, ref)), what + ": field")
        H.check(len(lst[f]) == len(ref) and lst[f].dtype is lst.fieldtypes[f], what + ": length of the field")


def lists(H, n, how, gap, what):
    m = H.load("docria.model")
    doc = m.Document()
    T = m.DataTypes
    L = doc.add_layer("tok", x=T.int64(None), s=T.string(None))
    oth = doc.add_layer("oth", x=T.int64(None)).add(x=5)
    out = []
    for i in range(n + (1 if gap else 0)):
        v = L.add(s="abcdefg"[i])
        if i % 3 != 1:
            v["x"] = H.int("x%d" % i, -2 ** 40, 2 ** 40)
        out.append(v)
    if gap:
        out[H.choose("gap", sorted({0, n // 2, n}))].detach()
    lst, ref = source(H, m, L, how, n)
    fields = ["x", "s"] if n or how != "nodes" else []
    is_list(H, m, lst, ref, fields, "the list")
    H.check(oth not in lst, "a node of another layer is in the list")
    if what == "index":
        i = H.concrete(H.int("i", -6, 5))
        r = attempt(lambda: lst[i])
        ok = -len(ref) <= i < len(ref)
        H.check(r[0] == ok and (not ok or r[1] is ref[i]), "a node by index")
        H.check(ok or isinstance(r[1], IndexError), "kind of error")
        if ok:
            for f in fields:
                r = attempt(lambda: lst[f][i])
                H.check(r[0] == (f in ref[i]) and (not r[0] or same(H, r[1], ref[i][f])), "the field of a node by index")
    elif what == "slice":
        a, b = [H.choose(k, [None] + list(range(-6, 6))) for k in "ab"]
        c = H.choose("c", [None, -2, -1, 1, 2])
        is_list(H, m, lst[a:b:c], ref[a:b:c], fields, "a slice")
    else:
        a, b = [H.choose(k, [None] + list(range(-5, 5))) for k in "ab"]
        idx = [i for i in (a, b) if i is not None]
        r = attempt(lambda: lst[idx])
        ok = all(-len(ref) <= i < len(ref) for i in idx)
        H.check(r[0] == ok, "a list of indices")
        if ok:
            is_list(H, m, r[1], [ref[i] for i in idx], fields, "a list of indices")
        else:
            H.check(isinstance(r[1], IndexError), "kind of error")
    # lists are independent of the layer and of each other
    cp = lst.to_list()
    lst.append(oth)
    H.check(len(cp) == len(ref) and [x for x in L] == [x for x in out if x.collection is L], "a change to a list changed another")


def document(H, steps):
    m = H.load("docria.model")
    T = m.DataTypes
    doc = m.Document()
    layers, texts = {}, {}
    for k in range(steps):
        op = H.choose("op%d" % k, ["layer", "schema", "ref", "del", "remove", "text", "main"])
        r = None
        if op in ("layer", "schema", "ref", "del", "remove"):
            f = H.choose("n%d" % k, ["a", "main"])
            if op == "layer":
                layers[f] = doc.add_layer(f, x=T.int32())
            elif op == "schema":
                s = m.NodeLayerSchema(f)
                s.add("x", T.int32())
                layers[f] = doc.add_layer(s)
                H.check(layers[f].schema is s, "schema of an added layer")
            elif op == "ref":
                layers["r"] = doc.add_layer("r", x=T.int32(), to=T.noderef(f))
            else:
                used = "r" in layers and layers["r"].schema.fields["to"].options["layer"] == f and f in layers
                r = attempt(lambda: doc.__delitem__(f) if op == "del" else doc.remove_layer(f))
                H.check(r[0] != used, op + " of a layer")
                if r[0]:
                    H.check(op == "del" or r[1] == (f in layers), "result of remove_layer")
                    layers.pop(f, None)
                else:
                    H.check(isinstance(r[1], m.DataValidationError), "kind of error")
        elif op == "text":
            s = H.text("t%d" % k, 0, 3)
            f = H.choose("n%d" % k, ["a", "main"])
            texts[f] = doc.add_text(f, s)
            H.check(texts[f].name == f and H.eq(texts[f].text, s), "added text")
        else:
            kind = H.choose("n%d" % k, ["str", "text", "other", "junk"])
            v = {"str": lambda: H.text("t%d" % k, 0, 3), "text": lambda: m.Text("main", "abc"), "other": lambda: m.Text("side", "abc"),
                 "junk": lambda: 7}[kind]()
            r = attempt(lambda: setattr(doc, "maintext", v))
            H.check(r[0] == ("main" not in texts and kind in ("str", "text")), "setting the main text")
            if r[0]:
                if kind == "text":
                    H.check(doc.maintext is v, "the main text is not the one set")
                else:
                    H.check(doc.maintext.name == "main" and H.eq(doc.maintext.text, v), "the main text is not the one set")
                texts["main"] = doc.maintext
        for got, want in ((doc.layer, layers), (doc.layers, layers), (doc.text, texts), (doc.texts, texts)):
            H.check(set(got.keys()) == set(want.keys()) and all(got[x] is want[x] for x in want), "layers and texts after " + op)
        for f in ("a", "main", "r", "none"):
            H.check((f in doc) == (f in layers), "in after " + op)
            r = attempt(lambda: doc[f])
            H.check(r[0] == (f in layers) and (not r[0] or r[1] is layers[f]), "layer by name after " + op)
            H.check(r[0] or isinstance(r[1], KeyError), "kind of error")
            if f in layers:
                H.check(doc[f].name == f and doc[f].schema.name == f, "name of a layer")
        r = attempt(lambda: doc.maintext)
        H.check(r[0] == ("main" in texts) and (not r[0] or r[1] is texts["main"]), "main text after " + op)


def encoded(H, m, cd, T, with_text, layer):
    doc = m.Document()
    t = doc.add_text("main", "abc")
    if with_text != "main":
        t = doc.add_text(with_text, "abc")
    L = doc.add_layer(layer, k=m.DataTypes.int32())
    n = L.add(k=1)
    S = doc.add_layer("src", x=T(t, L))
    S.add(x={"SPAN": lambda: t[0:2], "NODEREF": lambda: n, "NODEREF_MANY": lambda: [n, n], "NODEREF_SPAN": lambda: m.NodeSpan(n, n)}
          [S.schema.fields["x"].typename.name]())
    return bytes(cd.MsgpackCodec.encode(doc))


def types(H, kind):
    """field types by name and by object are the same"""
    m, cd = H.load("docria.model"), H.load("docria.codec")
    T = m.DataTypes
    name = H.choose("name", ["main", "tok", "src"])
    if kind == "span":
        tname = "tok" if name == "src" else name
        by = [lambda t, l: T.span(tname), lambda t, l: T.span(t), lambda t, l: T.textspan(tname), lambda t, l: T.textspan(t), lambda t, l: T.span(context=t),
              lambda t, l: t.spantype]
        if tname == "main":
            by += [lambda t, l: T.span(), lambda t, l: T.textspan()]
        outs = [encoded(H, m, cd, b, tname, "l1") for b in by]
        opt = {"context": tname}
        typename = m.DataTypeEnum.SPAN
        bad = [3, None]
        make = T.span
        o = m.Text(tname, "abc")
    else:
        make = {"ref": T.noderef, "many": T.noderef_many, "nspan": T.nodespan}[kind]
        lname = "l_" + name
        by = [lambda t, l: make(lname), lambda t, l: make(l), lambda t, l: make(layer=l), lambda t, l: make(layer=lname)]
        outs = [encoded(H, m, cd, b, "main", lname) for b in by]
        opt = {"layer": lname}
        typename = {"ref": m.DataTypeEnum.NODEREF, "many": m.DataTypeEnum.NODEREF_MANY, "nspan": m.DataTypeEnum.NODEREF_SPAN}[kind]
        bad = [3, None]
        o = m.Document().add_layer(lname)
    H.check(all(x == outs[0] for x in outs), "documents with types by name and by object differ")
    a, b = make(list(opt.values())[0]), make(o)
    for t in (a, b, m.DataTypes.create(typename, **opt)):
        H.check(t.typename is typename and dict(t.options) == opt, "type")
        H.check(t == a and hash(t) == hash(a) and type(t) is type(a), "equal types")
    for x in bad:
        r = attempt(lambda: make(x))
        H.check(not r[0] and isinstance(r[1], ValueError), "a type of something that is neither")


def defaults(H, kind):
    """the default value of a field type is the given one"""
    m = H.load("docria.model")
    T = m.DataTypes
    mk = {"i32": T.int32, "i64": T.int64, "f64": T.float64, "str": T.string, "bool": T.bool, "boolean": T.boolean}[kind]
    empty = {"i32": 0, "i64": 0, "f64": 0.0, "str": "", "bool": False, "boolean": False}[kind]
    how = H.choose("how", ["given", "named", "none", "left out"])
    if how in ("given", "named"):
        if kind == "i32":
            v = H.int("v", -2 ** 31, 2 ** 31 - 1)
        elif kind == "i64":
            v = H.int("v", -2 ** 63, 2 ** 63 - 1)
        elif kind == "f64":
            v = H.choose("v", [0.0, 1.5, -2.25, 1e300])
        elif kind == "str":
            v = H.text("v", 0, 3)
        else:
            v = H.choose("v", [True, False])
        t = mk(v) if how == "given" else mk(default=v)
        want = v
    elif how == "none":
        t = mk(None)
        want = None
    else:
        t = mk()
        want = empty
    doc = m.Document()
    L = doc.add_layer("tok", x=t, y=mk(None))
    n = L.add()
    k = m.Node()
    L.add_many([k])
    for x in (n, k):
        if want is None:
            H.check("x" not in x, "a field without a default value is set")
        else:
            H.check("x" in x and H.eq(x["x"], want) and type(want) is type(x["x"]), "default value")
            H.check(t.is_valid(x["x"]), "the default value is not valid")
        H.check("y" not in x, "a field without a default value is set")
    # types made earlier or later keep their own default
    o, p = mk(), mk(None)
    O = doc.add_layer("oth", x=o, y=p).add()
    H.check("x" in O and O["x"] == empty and "y" not in O, "default value of another type")
    H.check(o.typename is t.typename and o.typename is p.typename, "type names")


def chains(H, n):
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    doc = m.Document()
    T = m.DataTypes
    L = doc.add_layer("tok", x=T.int64(None), to=T.noderef("tok"))
    a, b, c = L.add(), L.add(), L.add()
    for i, k in enumerate((a, b, c)):
        k["x"] = H.int("x%d" % i, -2 ** 40, 2 ** 40)
    for k, o in (("a", a), ("b", b)):
        o["to"] = {"a": a, "b": b, "c": c}[H.choose(k, ["a", "b", "c"])]
    d = H.int("d", -2 ** 40, 2 ** 40)
    fns = []
    at, val = a, None
    for i in range(n):
        op = H.choose("op%d" % i, ["to", "x", "add", "neg"])
        if val is None:
            if op == "to":
                fns.append(alg.get_prop("to", c))
                at = at.get("to", c)
            elif op == "x":
                fns.append(alg.get_prop("x"))
                val = at["x"]
            else:
                H.assume(False)
        elif op == "add":
            fns.append(lambda v: v + d)
            val = val + d
        elif op == "neg":
            fns.append(lambda v: 3 * v)
            val = 3 * val
        else:
            H.assume(False)
    f = alg.chain(*fns)
    want = at if val is None else val
    for _ in range(2):
        r = f(a)
        H.check(r is want if val is None else H.eq(r, want), "a chain of functions")
    H.check(H.eq(alg.chain(f, alg.chain())(a), want) if val is not None else alg.chain(f, alg.chain())(a) is want, "a chain of chains")


def keyed(H, n, how):
    """getters and chains of them used as sort keys and in queries"""
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    doc = m.Document()
    T = m.DataTypes
    L = doc.add_layer("tok", x=T.int64(None), i=T.int32())
    for k in range(n):
        v = L.add(i=k)
        if H.choose("set%d" % k, [True, False]) if k < 2 else True:
            v["x"] = H.int("x%d" % k, -2 ** 40, 2 ** 40)
    d = H.int("d", -2 ** 40, 2 ** 40)
    plain = [v for v in L]
    vals = [v["x"] if "x" in v else d for v in plain]
    key = alg.get_prop("x", d) if how % 2 == 0 else alg.chain(alg.get_prop("x", d), lambda v: -v)
    if how < 2:
        L.sort(key)
        got = [v for v in L]
        H.check([v.i for v in got] == list(range(n)), "indices of a sorted layer")
    elif how < 4:
        got = L.to_list()
        got.sort(key=key)
        H.check(isinstance(got, m.NodeList) and len(got["x"]) == n, "a sorted list")
        H.check([v for v in L] == plain, "sorting a list changed the layer")
    else:
        q = L[lambda v: key(v) > 7]
        got = q.to_list() if how % 2 == 0 else m.NodeList(iter(q), fieldtypes=L.schema.fields)
        sign = 1 if how % 2 == 0 else -1
        for v, x in zip(plain, vals):
            H.check(H.Iff(any(v is g for g in got), sign * x > 7), "a query with a getter")
        H.check([v["i"] for v in got] == sorted(v["i"] for v in got), "order of a query with a getter")
        is_list(H, m, got, [v for v in plain if any(v is g for g in got)], ["x", "i"], "the result of a query")
        return
    pos = [[k for k in range(n) if got[k] is v] for v in plain]
    H.check(len(got) == n and all(len(p) == 1 for p in pos), "nodes of a sorted collection")
    for a in range(n):
        for b in range(n):
            if a != b:
                before = pos[a][0] < pos[b][0]
                less = vals[a] < vals[b] if how % 2 == 0 else vals[a] > vals[b]
                H.check(H.Iff(H.Or(less, H.And(H.eq(vals[a], vals[b]), a < b)), before), "order of a sorted collection")


OPS = ["item", "member", "update", "setdefault", "pop", "del", "delmember"]


def JOBS(tier):
    t = tier == "thorough"
    for bound in ("add", "many", "none"):
        yield "node", {"steps": 5 if t else 3, "bound": bound, "ops": OPS}
    for n in range(0, 7 if t else 5):
        for how in ("to_list", "slice", "nodes", "iter", "span", "copy", "reversed"):
            for gap in (False, True) if n in (2, 4) else (False,):
                yield "lists", {"n": n, "how": how, "gap": gap, "what": "index"}
                yield "lists", {"n": n, "how": how, "gap": gap, "what": "list"}
                if n in (0, 1, 3, 4, 6) and how in ("to_list", "reversed"):
                    yield "lists", {"n": n, "how": how, "gap": gap, "what": "slice"}
    yield "document", {"steps": 5 if t else 3}
    for k in ("span", "ref", "many", "nspan"):
        yield "types", {"kind": k}
    for k in ("i32", "i64", "f64", "str", "bool", "boolean"):
        yield "defaults", {"kind": k}
    for n in range(1, 5 if t else 4):
        for how in range(6):
            yield "keyed", {"n": n, "how": how}
    for n in range(0, 4 if not t else 5):
        yield "chains", {"n": n}
