"""C27: Data frames and printed schemas hold exactly the layer's data."""
from lib import attempt

BOUNDS = {"quick": "layers of up to 3 nodes left of up to 5, each field (integer, span, string, reference, list) set to any value or not set; all fields "
                   "or any selection and order of up to 3 of them, spans as objects or strings, with and without node column; schemas of two layers of "
                   "every combination of two field types with options; layers of 140 nodes, chosen blocks of them removed",
          "thorough": "layers of up to 4 nodes left of up to 6, selections of up to 4 fields"}
OUTSIDE = "what pandas makes of the columns it is given (a recorder stands in for pandas.DataFrame); fields set to None"
ASSUMPTIONS = []

FIELDS = ["v", "s", "w", "r", "m"]


def frame(H, n, nsel, mat):
    m = H.load("docria.model")
    T = m.DataTypes
    doc = m.Document()
    t = doc.add_text("main", H.text("t", 1, 40))
    a, b = H.int("a", 0, 39), H.int("b", 0, 39)
    H.assume(H.And(a <= b, b <= len(t)))
    L = doc.add_layer("tok", v=T.int32(None), s=T.span(), w=T.string(None), r=T.noderef("tok"), m=T.noderef_many("tok"))
    spare = [L.add() for _ in range(2)]
    vals = [{"v": H.int("v", -2 ** 31, 2 ** 31 - 1), "s": t[a:b], "w": "abc", "r": spare[0], "m": [spare[1]]},
            {"v": 0, "s": t[0:0], "w": "", "r": spare[1], "m": []},
            {"v": 1, "s": t[0:1], "w": "x", "r": spare[0], "m": [spare[0], spare[0]]}]
    ns = []
    sel = [] if nsel or H.bool("nofields") else None
    if nsel:
        for k in range(nsel):
            f = H.choose("f%d" % k, FIELDS)
            H.assume(f not in sel)
            sel.append(f)
    for i in range(n):
        x = {f: v for f, v in vals[i % 3].items() if f not in (sel if sel is not None else FIELDS)[:2] or i > 1 or H.bool("%s%d" % (f, i))}
        ns.append(L.add(**x))
        if i == 0 and H.bool("gap"):
            L.remove(L.add(w="gone"))
    if H.bool("drop"):
        L.remove(spare)
    else:
        ns = spare + ns
    ref = bool(H.bool("ref")) if sel is not None else True
    kw = {}
    if sel is not None:
        kw["fields"] = list(sel)
        kw["include_ref_field"] = ref
    if mat:
        kw["materialize_spans"] = True
    df = L.to_pandas(**kw)
    want = sel if sel is not None else FIELDS
    cols = [c for c, _ in df.cols]
    H.check(cols == want + (["__ref"] if ref else []), "columns of the data frame")
    for c, got in df.cols:
        H.check(len(got) == len(ns), "one row for each node")
        for n, g in zip(ns, got):
            if c == "__ref":
                H.check(g is n, "the node of a row")
            elif c not in n:
                H.check(g is None, "a value that is not set")
            elif c == "s" and mat:
                H.check(isinstance(g, str) and g == str(n["s"]), "the string of a span")
            elif c == "v":
                H.check(g == n["v"], "an integer")
            else:
                H.check(g is n[c], "a value")
    # the same through column views
    for f in want:
        H.check(all(x is y or (f == "v" and x == y) for x, y in zip(L[f], [n.get(f) for n in ns])) and len(L[f]) == len(ns), "column view")
    H.check(not attempt(lambda: L.to_pandas(fields=["v", "nothing"]))[0], "an unknown field is not refused")


def wide(H, n):
    """many nodes, of which one has any value or none, some removed"""
    m = H.load("docria.model")
    T = m.DataTypes
    L = m.Document().add_layer("tok", v=T.int32(None), w=T.string(None))
    at = H.choose("at", sorted({0, n // 2, n - 1}))
    v = H.int("v", -2 ** 31, 2 ** 31 - 1)
    ns = [L.add(**({} if i % 5 == 3 or i == at and H.bool("unset") else {"v": v if i == at else i, "w": str(i)})) for i in range(n)]
    k = H.choose("k", [0, 1, n // 4, n // 2])
    a = H.choose("a", [0, n - k])
    L.remove(ns[a:a + k])
    ns = ns[:a] + ns[a + k:]
    df = L.to_pandas()
    H.check([c for c, _ in df.cols] == ["v", "w", "__ref"], "columns of the data frame")
    for c, got in df.cols:
        H.check(len(got) == len(ns), "one row for each node")
        H.check(all(g is x if c == "__ref" else (g is None) == (c not in x) and (g is None or g == x[c]) for g, x in zip(got, ns)), "values of a column")


def printed(H, t1, t2):
    m = H.load("docria.model")
    T = m.DataTypes
    doc = m.Document()

    def make(t, d):
        return {"i32": T.int32(d), "i64": T.int64(), "f64": T.float64(0.5), "bool": T.bool(True), "str": T.string("abc"), "bin": T.binary,
                "span": T.span("xyz"), "ref": T.noderef("other"), "many": T.noderef_many("zed"), "nspan": T.nodespan("first")}[t]
    d = H.choose("d", [0, 7, -12, None])
    names = ["b", "a"] if H.bool("order") else ["a", "b"]
    fields = {"a": {"one": t1, "twotwo": t2}, "b": {"f": t2}}
    for l in names:
        doc.add_layer(l, **{f: make(t, d) for f, t in fields[l].items()})
    if H.bool("empty"):
        doc.add_layer("c")
        fields["c"] = {}
    lines = [x.strip() for x in H.printed(doc.printschema).split("\n") if x.strip()]
    want = []
    for l in sorted(fields):
        want.append(("[%s]" % l, []))
        for f, t in fields[l].items():
            typ = {"bool": "i1", "ref": "noderef", "many": "noderef_array", "nspan": "nodespan"}.get(t, t)
            opt = {"i32": None if d is None else str(d), "i64": "0", "f64": "0.5", "bool": "True", "str": "abc", "span": "xyz", "ref": "other", "many": "zed",
                   "nspan": "first"}.get(t)
            want.append((f, [typ] + ([opt] if opt is not None else [])))
    H.check(len(lines) == len(want), "one line for each layer and field")
    for x, (a, parts) in zip(lines, want):
        words = x.replace("*", " ").split()
        H.check(words[0] == a, "layers and fields in order")
        if parts:
            rest = x[x.index(a) + len(a):]
            H.check(words[2].split("[")[0] == parts[0], "type of a field")
            H.check(all(p in rest for p in parts), "options of a field")


def JOBS(tier):
    q = tier == "quick"
    js = []
    for mat in (False, True):
        for n in range(0, 4 if q else 5):
            for nsel in range(0, 4 if q else 5):
                if q and nsel == 3 and n > 2:
                    continue
                js.append(("frame", {"n": n, "nsel": nsel, "mat": mat}))
    js.append(("wide", {"n": 140}))
    ts = ["i32", "i64", "f64", "bool", "str", "bin", "span", "ref", "many", "nspan"]
    js += [("printed", {"t1": a, "t2": b}) for a in ts for b in ts]
    return js
