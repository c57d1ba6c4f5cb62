"""C19: Schema changes and default values apply to all and only the right nodes."""
from lib import attempt

BOUNDS = {"quick": "histories of 4 changes (add a field of any plain type with any or no default, remove a field or leave its data, add a "
                   "node or several with or without explicit values, remove a node) to a layer of up to 2 nodes; removal of one of 3 "
                   "layers with any combination of reference, list and node span fields among them; every default value of every "
                   "plain type (strings up to 30000 characters); layers of 140 nodes and of 40 fields with any value and any default",
          "thorough": "histories of 5 changes"}
OUTSIDE = "nodes added as Node objects by add(), which does not fill in defaults; defaults not valid for their type"
ASSUMPTIONS = ["Default values given to the type factories are valid for the type (an integer is valid for a float)."]
TYPES = ["i32", "i64", "f64", "bool", "str", "bin", "span", "ref", "many", "nspan"]
NODEFAULT = ["bin", "span", "ref", "many", "nspan"]


def value(H, t, nm):
    if t == "i32":
        return H.int(nm, -2 ** 31, 2 ** 31 - 1)
    if t == "i64":
        return H.int(nm, -2 ** 63, 2 ** 63 - 1)
    if t == "f64":
        return H.float(nm, -10 ** 6, 10 ** 6, 8)
    if t == "bool":
        return bool(H.bool(nm))
    if t == "str":
        return H.text(nm, 0, 30000)
    return H.blob(nm, 0, 30000)


def make(H, m, t, nm, how):
    """how: plain (the factory's own default), none, value; returns the type as given and its default"""
    T = m.DataTypes
    fac = {"i32": T.int32, "i64": T.int64, "f64": T.float64, "bool": T.bool, "str": T.string}
    zero = {"i32": 0, "i64": 0, "f64": 0.0, "bool": False, "str": ""}
    if t in NODEFAULT:
        return {"bin": lambda: T.binary, "span": lambda: T.span(), "ref": lambda: T.noderef("l"),
                "many": lambda: T.noderef_many("l"), "nspan": lambda: T.nodespan("l")}[t](), None
    if how == "factory":
        return fac[t], zero[t]
    if how == "plain":
        return fac[t](), zero[t]
    if how == "none":
        return fac[t](None), None
    v = value(H, t, nm)
    return fac[t](v), v


def factories(H, t, how):
    """every declared default is valid for its type"""
    m = H.load("docria.model")
    if how == "whole":
        v = H.int("v", -2 ** 31, 2 ** 31)
        dt, d = m.DataTypes.float64(v), v
    else:
        dt, d = make(H, m, t, "v", how)
    if how == "factory":
        dt = dt()
    got = dt.default()
    if d is None:
        H.check(got is None, "a default where there is none")
    else:
        H.check(got == d, "the declared default")
        H.check(dt.is_valid(got), "the default is not valid for the type")
        doc = m.Document()
        doc.add_text("main", "")
        n = doc.add_layer("l", x=dt).add()
        H.check("x" in n and n["x"] == d, "the default of a new node")
        H.check(n.is_valid(), "a node of defaults is not valid")
        H.check(isinstance(n["x"], {"i32": int, "i64": int, "f64": float, "bool": bool, "str": str}[t]), "type of the default")
    # other declarations do not change it
    for how2 in ("plain", "none", "value"):
        make(H, m, t, "w", how2)
    again = dt.default()
    H.check(again is None if d is None else again == d, "the default changed")
    H.observe("d", again)


def history(H, ops, types, start):
    """a layer of up to 2 nodes and a history of changes, against a model"""
    m = H.load("docria.model")
    doc = m.Document()
    doc.add_text("main", "")
    L = doc.add_layer("l")
    other = doc.add_layer("other", a=m.DataTypes.int32(7))
    foreign = other.add()
    fields, nodes = {}, []          # the model: {field: (type, default)}, [(node, {field: value})]

    def grow(kind, nm):
        ex = {}
        for f in list(fields):
            if H.bool(nm + f):
                v = explicit(H, fields[f][0], nm + f + "v")
                if v is not None:
                    ex[f] = v
        want = dict(ex)
        for f, (t, d) in fields.items():
            if f not in want and d is not None:
                want[f] = d
        if kind == "one":
            nodes.append((L.add(**ex), want))
        else:
            given = [m.Node(), m.Node(**ex)]
            L.add_many(given)
            nodes.append((given[0], {f: d for f, (t, d) in fields.items() if d is not None}))
            nodes.append((given[1], want))

    for k in range(start):
        grow("one", "n%d" % k)
    for k in range(len(ops)):
        op = ops[k]
        if op == "add":
            f = H.choose("f%d" % k, ["a", "b"])
            t, how = types[k % len(types)]
            init = H.choose("i%d" % k, [True, False])
            dt, d = make(H, m, t, "d%d" % k, how)
            ok, r = attempt(lambda: L.add_field(f, dt) if init else L.add_field(f, dt, init_with_default=False))
            if f in fields:
                H.check(not ok and isinstance(r, m.SchemaValidationError), "a field that exists was added")
            else:
                H.check(ok, "a field could not be added")
                fields[f] = (t, d)
                if init and d is not None:
                    for n, e in nodes:
                        e[f] = d
        elif op == "remove":
            f = H.choose("f%d" % k, ["a", "b"])
            leave = H.choose("l%d" % k, [False, True])
            r = L.remove_field(f, leave_data=True) if leave else L.remove_field(f)
            H.check(r is (f in fields), "result of removing a field")
            if f in fields:
                del fields[f]
                if not leave:
                    for n, e in nodes:
                        e.pop(f, None)
        elif op == "grow":
            grow(H.choose("g%d" % k, ["one", "many"]), "n%d_" % k)
        elif op == "drop":
            if nodes:
                i = H.concrete(H.int("x%d" % k, 0, len(nodes) - 1))
                n, e = nodes.pop(i)
                L.remove(n)
        compare(H, L, fields, nodes)
        H.check(dict(foreign) == {"a": 7} and list(other.schema.fields) == ["a"], "another layer changed")
    H.observe("n", len(nodes))


def wide(H, n, nf):
    """many nodes and many fields, of which one has any default and one node any value"""
    m = H.load("docria.model")
    T = m.DataTypes
    doc = m.Document()
    L = doc.add_layer("l", **{"f%d" % k: T.int32(k) for k in range(nf)})
    fields = {"f%d" % k: ("i32", k) for k in range(nf)}
    nodes = []
    at = H.choose("at", sorted({0, n // 2, n - 1}))
    v, d = H.int("v", -2 ** 31, 2 ** 31 - 1), H.int("d", -2 ** 31, 2 ** 31 - 1)
    for i in range(n):
        ex = {"f0": v} if i == at else {"f%d" % (i % nf): -i}
        nodes.append((L.add(**ex), {**{f: x for f, (_, x) in fields.items()}, **ex}))
    for k in (n // 3, 0):
        L.remove(nodes.pop(k)[0])
    L.add_field("new", T.int32(d))
    fields["new"] = ("i32", d)
    for x, e in nodes:
        e["new"] = d
    f = "f%d" % H.choose("f", sorted({0, nf // 2, nf - 1}))
    leave = H.choose("leave", [False, True])
    L.remove_field(f, leave_data=leave)
    del fields[f]
    if not leave:
        for x, e in nodes:
            del e[f]
    more = [m.Node(**({"new": i} if i % 2 else {})) for i in range(n)]
    L.add_many(more)
    for i, x in enumerate(more):
        nodes.append((x, {**{g: y for g, (_, y) in fields.items()}, **({"new": i} if i % 2 else {})}))
    compare(H, L, fields, nodes)


def explicit(H, t, nm):
    return value(H, t, nm) if t in ("i32", "i64", "f64", "bool", "str", "bin") else None


def compare(H, L, fields, nodes):
    H.check(sorted(L.schema.fields.keys()) == sorted(fields), "the fields of the layer")
    H.check(sorted(L.fieldtypes.keys()) == sorted(fields), "the field types of the layer")
    for f, (t, d) in fields.items():
        got = L.schema.fields[f].default()
        H.check(got is None if d is None else got == d, "the default of a field")
    H.check(len(L) == len(nodes) and all(x is n for x, (n, e) in zip(L, nodes)), "the nodes of the layer")
    for n, e in nodes:
        H.check(sorted(n.keys()) == sorted(e), "the values a node has")
        for f, v in e.items():
            H.check(n[f] == v, "a value of a node")


def cascade(H, pat, target):
    """pat: per layer (a, b, c) a string of (kind, to) pairs"""
    m = H.load("docria.model")
    T = m.DataTypes
    kinds = {"r": T.noderef, "m": T.noderef_many, "s": T.nodespan}
    doc = m.Document()
    T0 = doc.add_text("main", "xy")
    names = ["a", "b", "c"]
    want, nodes = {}, {}
    for l in names:
        fs = {"plain": T.int32(3), "sp": T.span()}
        for k in range(0, len(pat[l]), 2):
            fs["f%d" % k] = kinds[pat[l][k]](pat[l][k + 1])
        want[l] = {f: (pat[l][int(f[1:])], pat[l][int(f[1:]) + 1]) if f[0] == "f" else None for f in fs}
        doc.add_layer(l, **fs)
    for l in names:
        nodes[l] = doc.layers[l].add(sp=T0[0:1])
    vals = {l: dict(nodes[l]) for l in names}
    for l in names:
        for f, w in want[l].items():
            if w is not None and H.bool("v%s%s" % (l, f)):
                x = nodes[w[1]] if w[1] in nodes else None
                if x is None:
                    continue
                vals[l][f] = nodes[l][f] = x if w[0] == "r" else [x] if w[0] == "m" else m.NodeSpan(x, x)
    other = {l: [f for f, w in want[l].items() if w is not None and w[1] == target] for l in names if l != target}
    refers = any(other.values())
    how = H.choose("how", ["default", "no", "cascade"])
    ok, r = attempt(lambda: doc.remove_layer(target) if how == "default"
                    else doc.remove_layer(target, fieldcascade=how == "cascade"))
    if target not in names:
        H.check(ok and r is False, "removal of a layer that does not exist")
        gone = []
    elif refers and how != "cascade":
        H.check(not ok and isinstance(r, m.DataValidationError), "a layer that is referred to was removed")
        gone = []
    else:
        H.check(ok and r is True, "a layer is not removed or not reported")
        gone = [target]
    H.check(sorted(doc.layers.keys()) == [l for l in names if l not in gone], "the layers of the document")
    for l in names:
        if l in gone:
            continue
        lost = other.get(l, []) if gone else []
        H.check(sorted(doc.layers[l].schema.fields.keys()) == sorted(f for f in want[l] if f not in lost), "the remaining fields")
        n = nodes[l]
        keys = [f for f in vals[l] if f not in lost]
        H.check(sorted(n.keys()) == sorted(keys), "the remaining values")
        H.check(all(n[f] is vals[l][f] for f in keys), "a value changed")
        H.check(n.collection is doc.layers[l] and len(doc.layers[l]) == 1, "a node of another layer was lost")
    if gone:
        ok, r = attempt(lambda: doc.remove_layer(target))
        H.check(ok and r is False, "a layer is removed twice")
    H.observe("left", sorted(doc.layers.keys()))


def JOBS(tier):
    import itertools
    q = tier == "quick"
    js = []
    for t in TYPES:
        for how in (["none", "plain", "factory", "value"] if t not in NODEFAULT else ["plain"]):
            js.append(("factories", {"t": t, "how": how}))
    js.append(("factories", {"t": "f64", "how": "whole"}))
    plain = [(t, how) for t in TYPES for how in (["plain", "none", "value", "factory"] if t not in NODEFAULT else ["plain"])]
    for t in plain:
        js.append(("history", {"ops": ["add", "grow", "remove"], "types": [t], "start": 1}))
    mixed = [("i32", "value"), ("str", "plain"), ("bool", "value"), ("f64", "none")]
    for ops in itertools.product(["add", "remove", "grow", "drop"], repeat=4 if q else 5):
        if "add" in ops and ops[-1] != "drop":
            js.append(("history", {"ops": list(ops), "types": mixed, "start": 1}))
    js.append(("history", {"ops": ["add", "add", "remove", "add"], "types": mixed, "start": 2}))
    js.append(("history", {"ops": ["add", "remove", "add", "grow"], "types": mixed, "start": 1}))
    js += [("wide", {"n": n, "nf": k}) for n, k in ((140, 3), (5, 40))]
    refs = ["", "ra", "ma", "sa", "rb", "raraxa"[:4], "rbsa", "mamb", "rcsb"]
    for pa in ("", "ra", "rb", "sc"):
        for pb in refs:
            for pc in ("", "rb", "sa"):
                for target in ("a", "b", "z") if pa == "" else ("a",):
                    js.append(("cascade", {"pat": {"a": pa, "b": pb, "c": pc}, "target": target}))
    return js
