"""C14: Grouping by span puts each node in exactly the right groups."""
from lib import attempt

N = 30000
BOUNDS = {"quick": "up to 2 groups and 2 nodes (in one or two layers), also 1 group and 3 nodes, with any spans of a text of 0..30000 "
                   "characters, non-empty or empty, or without a span; 3 nodes without values; both resolutions; empty groups kept or not; 9 groups and 16 nodes, of which one group and one node stand anywhere",
          "thorough": "up to 5 spans in all (1+4, 2+3, 3+2, 4+1)"}
OUTSIDE = "more spans at once; the order of the nodes within a group; a node listed twice"
ASSUMPTIONS = []


def span(H, doc, nm, n, kind):
    """kind: n(on-empty) e(mpty) a(bsent) v (present but None)"""
    if kind == "a":
        return {}, None
    if kind == "v":
        return {"s": None}, None
    a = H.int(nm + "a", 0, N)
    if kind == "e":
        H.assume(a <= n)
        return {"s": doc.texts["main"][a:a]}, (a, a)
    b = H.int(nm + "b", 0, N)
    H.assume(H.And(a < b, b <= n))
    return {"s": doc.texts["main"][a:b]}, (a, b)


def intersects(H, g, x, ek, ex):
    (a, b), (c, d) = g, x
    if ek == "e" and ex == "e":
        return a == c
    if ex == "e":
        return H.And(a <= c, c < b)
    if ek == "e":
        return H.And(c <= a, a < d)
    return H.And(c < b, a < d)


def group(H, gk, nk, resolution="intersect", empties=True, default=False):
    """gk: kinds of the groups; nk: kinds of the nodes per layer, e.g. ["ne", "n"]"""
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    t = H.text("t", 0, N)
    n = H.length(t)
    doc = m.Document()
    doc.add_text("main", t)
    fld = "text" if default else "s"
    gfld = "text" if default else "gs"
    G = doc.add_layer("group", **dict({gfld: m.DataTypes.span()}, **({} if default else {"text": m.DataTypes.span(), "s": m.DataTypes.span()})))
    decoy = doc.texts["main"][0:]
    groups, layers, extents = [], {}, {}
    for i, k in enumerate(gk):
        v, e = span(H, doc, "g%d" % i, n, k)
        g = G.add() if k != "v" else G.add()
        for x in v.values():
            g[gfld] = x
        if not default:
            g["text"] = g["s"] = decoy
        groups.append(g)
        extents[g] = (e, k)
    for j, ks in enumerate(nk):
        L = doc.add_layer("layer%d" % j, **dict({fld: m.DataTypes.span(), "other": m.DataTypes.int32(0)},
                                                     **({} if default else {"text": m.DataTypes.span(), "gs": m.DataTypes.span()})))
        layers["layer%d" % j] = []
        for i, k in enumerate(ks):
            v, e = span(H, doc, "n%d_%d" % (j, i), n, k)
            x = L.add()
            for y in v.values():
                x[fld] = y
            if not default:
                # other spans the node has are of no account
                x["gs"] = x["text"] = decoy
            layers["layer%d" % j].append(x)
            extents[x] = (e, k)
    kw = {} if default else {"group_span_field": "gs", "layer_span_field": {l: "s" for l in layers}}
    if resolution != "intersect" or not default:
        kw["resolution"] = resolution
    if not empties:
        kw["include_empty_groups"] = False
    res = alg.group_by_span(groups, layers, **kw)
    out = []
    last = None
    seen = []
    for g, members in res:
        H.check(any(g is x for x in groups) and not any(g is x for x in seen), "a group twice, or a node that is no group")
        seen.append(g)
        (e, k) = extents[g]
        H.check(e is not None, "a group without a span")
        if last is not None:
            H.check(last <= e[0], "groups in order of start")
        last = e[0]
        H.check(sorted(members.keys()) == sorted(layers), "layers of a group")
        count = 0
        for l, L in layers.items():
            got = list(members[l])
            for x in L:
                ex, kx = extents[x]
                c = len([y for y in got if y is x])
                H.check(c <= 1, "a node twice in a group")
                if ex is None:
                    H.check(c == 0, "a node without a span in a group")
                    continue
                want = intersects(H, e, ex, k, kx)
                if resolution == "cover":
                    want = H.And(want, e[0] <= ex[0], ex[1] <= e[1])
                H.check(H.Iff(want, c == 1), "membership of a node")
                count += c
            H.check(len(got) == len([y for y in got if any(y is x for x in L)]), "a foreign node in a group")
            out.append(len(got))
        if not empties:
            H.check(count > 0, "an empty group that was not asked for")
    for g in groups:
        e, k = extents[g]
        if e is None or any(g is x for x in seen):
            continue
        H.check(not empties, "a group is missing")
        for l, L in layers.items():
            for x in L:
                ex, kx = extents[x]
                if ex is not None:
                    want = intersects(H, e, ex, k, kx)
                    if resolution == "cover":
                        want = H.And(want, e[0] <= ex[0], ex[1] <= e[1])
                    H.check(H.Not(want), "a group with members is missing")
    H.observe("r", out)


def wide(H, ng, nn, resolution, empties):
    """many groups and nodes, of which one group and one node have any span"""
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    top = 4 * max(ng, nn)
    long = H.choose("long", [0, 3 * nn - 4])
    doc = m.Document()
    T = doc.add_text("main", "abcd" * max(ng, nn))
    G, L = doc.add_layer("group", text=m.DataTypes.span()), doc.add_layer("l", text=m.DataTypes.span())
    gat, nat = 0, nn // 2
    ga = H.int("ga", 0, top - 9)
    gb = ga + (1 if long else H.choose("gl", [1, 9]))
    na = H.int("na", 0, top - 3)
    gs = [(ga, gb) if i == gat else (i * 5 % top, min(i * 5 % top + i % 4, top)) for i in range(ng)]
    ns = [(na, na + 3) if i == nat else (i * 3 % top, min(i * 3 % top + (i % 3 if not long else long + i % 3), top)) for i in range(nn)]
    groups, nodes = [G.add(text=T[a:b]) for a, b in gs], [L.add(text=T[a:b]) for a, b in ns]
    res = alg.group_by_span(groups, {"l": nodes}, resolution=resolution, include_empty_groups=empties)
    found = []
    for g, members in res:
        H.check(g.collection is G and g.i not in [i for i, _ in found], "a group twice, or a node that is no group")
        got = list(members["l"])
        ids = [x.i for x in got]
        H.check(all(nodes[i] is x for i, x in zip(ids, got)) and len(set(ids)) == len(ids), "a node twice in a group")
        found.append((g.i, ids))
    H.check(H.And(*[gs[a[0]][0] <= gs[b[0]][0] for a, b in zip(found, found[1:])]), "groups in order of start")
    by = dict(found)
    for i, e in enumerate(gs):
        want = []
        for j, x in enumerate(ns):
            c = intersects(H, e, x, "e" if i != gat and e[0] == e[1] else "n", "e" if j != nat and x[0] == x[1] else "n")
            if resolution == "cover":
                c = H.And(c, e[0] <= x[0], x[1] <= e[1])
            want.append(c)
        if i not in by:
            H.check(not empties, "a group is missing")
        elif not empties:
            H.check(by[i], "an empty group that was not asked for")
        H.check(H.And(*[H.Iff(c, j in by.get(i, [])) for j, c in enumerate(want)]), "membership of a node")


def missing_field(H):
    """a layer without a named span field is refused"""
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    doc = m.Document()
    T = doc.add_text("main", H.text("t", 1, N))
    a = H.int("a", 0, N)
    H.assume(a < H.length(str(T)))
    g, x = m.Node(text=T[a:]), m.Node(text=T[0:a])
    ok, r = attempt(lambda: alg.group_by_span([g], {"x": [x]}, layer_span_field={"y": "text"}))
    H.check(not ok and isinstance(r, KeyError), "a layer without span field")


def JOBS(tier):
    js = []

    def add(gk, nk, **k):
        js.append(("group", dict({"gk": gk, "nk": nk}, **k)))
    for res in ("intersect", "cover"):
        for g in "ne":
            for x in ("nn", "ne", "en", "ee"):
                add(g, [x], resolution=res)
        for gs in ("nn", "ne", "en", "ee"):
            for x in "ne":
                add(gs, [x], resolution=res)
        add("n", ["n", "e"], resolution=res, empties=False)
        add("ne", ["n"], resolution=res, empties=False)
    add("n", ["nn"], default=True)
    add("nv", ["nv", "v"], default=True, resolution="cover")
    add("nav", ["nav", "vea"])
    add("e", ["a", "v"])
    add("e", ["a", "v"], empties=False)
    add("nn", ["n", "n"])
    add("nn", ["nn"], resolution="cover")
    add("n", ["nnn"])
    add("nnn", ["n"], resolution="cover")
    add("", ["n"])
    add("n", [])
    add("n", [""], empties=False)
    for gs, x in (("ne", "ne"), ("ee", "ne"), ("nn", "ee"), ("nn", "ne"), ("ne", "nn")):
        add(gs, [x], resolution="cover" if gs == "nn" else "intersect")
    for res in ("intersect", "cover"):
        js.append(("wide", {"ng": 9 if tier == "quick" else 14, "nn": 20 if tier == "quick" else 26, "resolution": res, "empties": res == "cover"}))
    js.append(("missing_field",))
    if tier == "thorough":
        import itertools
        for a, b in ((1, 3), (3, 1), (2, 2)):
            for gs in itertools.product("ne", repeat=a):
                for xs in itertools.product("ne", repeat=b):
                    for res in ("intersect", "cover"):
                        add("".join(gs), ["".join(xs)], resolution=res)
        for gs, x in (("nn", "nnn"), ("nnn", "nn"), ("n", "nnnn"), ("ne", "nen")):
            add(gs, [x], resolution="cover")
    return js
