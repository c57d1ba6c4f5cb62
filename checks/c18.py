"""C18: Graph traversals visit every reachable node exactly once."""
from lib import attempt

BOUNDS = {"quick": "every graph of at most 3 nodes with up to 2 children each in any order (repeats and self-loops included), every graph "
                   "of 4 nodes in one child order, with or without a result filter; children from one or two "
                   "reference fields, single or many, absent or present, and from any function; chains of 7000 and trees, stars and meshes of 150 nodes with one more edge "
                   "between chosen nodes and one node without children",
          "thorough": "every graph of 4 nodes with every filter; 3 nodes with up to 3 children each; 4 nodes with up to 2"}
OUTSIDE = "larger graphs; graphs changed while they are traversed; references that are None"
ASSUMPTIONS = []
INF = 10 ** 6


def model(H, n, adj, start=0):
    """distance from the start of every node, INF when unreachable; adj[i]: children of node i"""
    dist = [INF] * n
    dist[start] = 0
    todo = [start]
    while todo:
        nxt = []
        for i in todo:
            for j in adj(i):
                if dist[j] == INF:
                    dist[j] = dist[i] + 1
                    nxt.append(j)
        todo = nxt
    return dist


def preorder(adj, i, seen):
    out = []
    if i in seen:
        return out
    seen.append(i)
    out.append(i)
    for j in adj(i):
        out += preorder(adj, j, seen)
    return out


def judge(H, kind, n, nodes, adj, res, accept):
    dist = model(H, n, adj)
    res = list(res)
    got = [x[1] for x in res] if kind == "bfs" else res
    idx = []
    for x in got:
        k = [i for i in range(n) if nodes[i] is x]
        H.check(len(k) == 1, "not a node of the graph")
        H.check(k[0] not in idx, "a node is reported twice")
        idx.append(k[0])
    for i in range(n):
        want = dist[i] < INF and (kind != "leaves" or len(adj(i)) == 0) and accept(i)
        H.check((i in idx) == want, "the wrong nodes are reported")
    if kind == "bfs":
        H.check([x[0] for x in res] == [dist[i] for i in idx], "distance")
        H.check(all(dist[a] <= dist[b] for a, b in zip(idx, idx[1:])), "order of distance")
    else:
        H.check(idx == [i for i in preorder(adj, 0, []) if i in idx], "pre-order")
    H.observe("r", idx)


def run(alg, kind, start, children, filt):
    fn = {"bfs": alg.bfs, "dfs": alg.dfs, "leaves": alg.dfs_leaves}[kind]
    return fn(start, children) if filt is None else fn(start, children, filt)


def function(H, kind, n, shape, filtered, loops=False, maxc=2):
    """the edges are decided when the traversal asks for them"""
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    layer = m.Document().add_layer("l")
    nodes = [layer.add() for _ in range(n)]
    memo, acc = {}, {}

    def adj(i):
        if i not in memo:
            if shape == "edges":
                memo[i] = [j for j in range(n) if (loops or j != i) and H.bool("e%d_%d" % (i, j))]
            else:
                c = H.concrete(H.int("c%d" % i, 0, maxc))
                memo[i] = [H.concrete(H.int("c%d_%d" % (i, j), 0, n - 1)) for j in range(c)]
        return memo[i]

    def accept(i):
        if not filtered:
            return True
        if i not in acc:
            acc[i] = bool(H.bool("r%d" % i))
        return acc[i]

    def children(x):
        return iter([nodes[j] for j in adj(x.i)])
    res = run(alg, kind, nodes[0], children, (lambda x: accept(x.i)) if filtered else None)
    judge(H, kind, n, nodes, adj, res, accept)


def wide(H, kind, n, shape):
    """a large graph with one more edge from and to chosen nodes"""
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    T = m.DataTypes
    L = m.Document().add_layer("l", next=T.noderef("l"), many=T.noderef_many("l"))
    nodes = [L.add() for _ in range(n)]
    edges = []
    for i in range(n):
        if shape == "chain":
            kids = [i + 1] if i + 1 < n else []
        elif shape == "tree":
            kids = [j for j in (2 * i + 1, 2 * i + 2) if j < n]
        elif shape == "star":
            kids = list(range(n - 1, 0, -1)) if i == 0 else [0] if i % 2 else []
        else:
            kids = [j for j in (i + 1, i + 5, i - 3) if 0 <= j < n]
        edges.append(kids)
    a, b = H.choose("a", sorted({0, n // 2, n - 1})), H.choose("b", sorted({0, 1, n // 3, n // 2, n // 2 + 1, n - 2, n - 1}))
    edges[a] = edges[a] + [b]
    if H.bool("cut"):
        edges[H.choose("c", sorted({0, n // 3, n // 2}))] = []
    for i, kids in enumerate(edges):
        if shape == "chain" and len(kids) == 1:
            nodes[i]["next"] = nodes[kids[0]]
        else:
            nodes[i]["many"] = [nodes[j] for j in kids]
    res = run(alg, kind, nodes[0], alg.children_of(L, "next", "many"), None)
    got = [(x[0], x[1].i) if kind == "bfs" else (0, x.i) for x in res]
    idx = [i for _, i in got]
    dist = model(H, n, lambda i: edges[i])
    H.check(len(set(idx)) == len(idx), "a node is reported twice")
    H.check(set(idx) == {i for i in range(n) if dist[i] < INF and (kind != "leaves" or not edges[i])}, "the wrong nodes are reported")
    if kind == "bfs":
        H.check([d for d, _ in got] == [dist[i] for i in idx], "distance")
        H.check(all(dist[i] <= dist[j] for i, j in zip(idx, idx[1:])), "order of distance")
    else:
        order, seen, todo = [], set(), [0]
        while todo:
            i = todo.pop()
            if i not in seen:
                seen.add(i)
                order.append(i)
                todo += edges[i][::-1]
        H.check(idx == [i for i in order if kind != "leaves" or not edges[i]], "pre-order")


def fields(H, kind, n, types, maxc, filtered=False):
    """the children come from reference fields"""
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    T = m.DataTypes
    names = ["f%d" % k for k in range(len(types))]
    layer = m.Document().add_layer("l", plain=T.int32(0), **{f: T.noderef("l") if t == "r" else T.noderef_many("l")
                                                            for f, t in zip(names, types)})
    nodes = [layer.add() for _ in range(n)]
    edges = []
    for i in range(n):
        kids = []
        for f, t in zip(names, types):
            nm = "%d%s" % (i, f)
            c = H.concrete(H.int(nm, 0, 1 if t == "r" else maxc))
            js = [H.concrete(H.int("%s_%d" % (nm, j), 0, n - 1)) for j in range(c)]
            if t == "r" and c:
                nodes[i][f] = nodes[js[0]]
            elif t == "m" and (c or H.bool(nm + "p")):
                nodes[i][f] = [nodes[j] for j in js]
            kids += js
        edges.append(kids)
    ch = alg.children_of(layer, *names)
    for i in range(n):
        got = list(ch(nodes[i]))
        H.check(len(got) == len(edges[i]) and all(x is nodes[j] for x, j in zip(got, edges[i])), "children of a node")
    if kind:
        res = run(alg, kind, nodes[0], ch, (lambda x: x.i % 2 == 1) if filtered else None)
        judge(H, kind, n, nodes, lambda i: edges[i], res, lambda i: not filtered or i % 2 == 1)


def refused(H):
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    T = m.DataTypes
    layer = m.Document().add_layer("l", a=T.int32(), s=T.span(), r=T.noderef("l"))
    for props in (["a"], ["s"], ["r", "a"], ["s", "r"], [], ["nope"]):
        ok, r = attempt(lambda: alg.children_of(layer, *props))
        H.check(not ok, "no children field")


def JOBS(tier):
    q = tier == "quick"
    js = [("refused",)]
    for kind in ("bfs", "dfs", "leaves"):
        for n in (1, 2, 3):
            js.append(("function", {"kind": kind, "n": n, "shape": "lists", "filtered": False}))
            js.append(("function", {"kind": kind, "n": n, "shape": "edges", "filtered": True, "loops": True}))
        js.append(("function", {"kind": kind, "n": 4, "shape": "edges", "filtered": False, "loops": True}))
        js.append(("function", {"kind": kind, "n": 2, "shape": "lists", "filtered": True, "maxc": 3}))
        for types in ("r", "m", "rm", "mm", "mr"):
            js.append(("fields", {"kind": kind, "n": 2, "types": types, "maxc": 1}))
        js.append(("fields", {"kind": kind, "n": 3, "types": "r", "maxc": 1, "filtered": True}))
        if not q:
            js.append(("function", {"kind": kind, "n": 3, "shape": "lists", "filtered": False, "maxc": 3}))
            js.append(("function", {"kind": kind, "n": 4, "shape": "lists", "filtered": False, "maxc": 2}))
            js.append(("function", {"kind": kind, "n": 4, "shape": "edges", "filtered": True, "loops": True}))
            js.append(("fields", {"kind": kind, "n": 2, "types": "rmm", "maxc": 2}))
    for kind in ("bfs", "dfs", "leaves"):
        js += [("wide", {"kind": kind, "n": 7000 if s == "chain" else 150, "shape": s}) for s in ("chain", "tree", "star", "mesh")]
    js += [("fields", {"kind": None, "n": 3, "types": t, "maxc": c}) for t, c in (("rr", 1), ("m", 2))]
    return js
