"""C15: Overlap resolution keeps the dominant, pairwise disjoint segments."""
import itertools

N = 30000
BOUNDS = {"quick": "up to 4 segments, non-empty or empty, with any offsets in 0..30000, in any order; up to 3 nodes with any spans "
                   "of a text of that length or without one; 12 segments in 3 arrangements, of which one stands anywhere",
          "thorough": "up to 5 segments"}
OUTSIDE = "more segments at once; segments with stop < start; the same tuple object listed twice"
ASSUMPTIONS = ["An empty segment occupies the position it stands at, so it overlaps a segment holding that character or another "
               "empty one there."]


def overlap(H, x, y):
    """x, y: (start, last occupied position)"""
    return H.And(x[0] <= y[1], y[0] <= x[1])


def judge(H, segs, res, ids):
    """segs: (start, stop, empty); res: the data returned; ids: the data per segment"""
    occ = [(a, a if e else b - 1) for a, b, e in segs]
    ln = [b - a for a, b, e in segs]
    kept = []
    for r in res:
        k = [i for i in range(len(segs)) if ids[i] is r]
        H.check(len(k) == 1, "data that was not given")
        H.check(k[0] not in kept, "a segment twice")
        kept.append(k[0])
    for p, q in zip(kept, kept[1:]):
        H.check(segs[p][0] <= segs[q][0], "order of position")
    for p, q in itertools.combinations(kept, 2):
        H.check(H.Not(overlap(H, occ[p], occ[q])), "kept segments overlap")
    for i in range(len(segs)):
        if i in kept:
            continue
        H.check(H.Or(*[H.And(overlap(H, occ[i], occ[j]), ln[j] >= ln[i]) for j in range(len(segs)) if j != i]),
                "left out without an overlapping segment at least as long")
    if segs:
        H.check(H.Or(*[H.And(*[H.Or(ln[j] < ln[i], H.And(ln[j] == ln[i], segs[j][0] <= segs[i][0])) for j in range(len(segs))])
                       for i in kept]), "the rightmost of the longest is left out")
    H.observe("kept", kept)


def segments(H, kinds, order=None):
    alg = H.load("docria.algorithm")
    segs, given, ids = [], [], []
    for i, k in enumerate(kinds):
        a = H.int("a%d" % i, 0, N)
        b = a if k == "e" else H.int("b%d" % i, 0, N)
        if k != "e":
            H.assume(a < b)
        segs.append((a, b, k == "e"))
        ids.append(["data"])
        given.append((a, b, ids[i]))
    for i, j in zip(order or (), (order or ())[1:]):
        # splits the work: one job per order of the starts
        H.assume(segs[i][0] <= segs[j][0] if i < j else segs[i][0] < segs[j][0])
    before = list(given)
    res = alg.dominant_right(given)
    H.check(len(given) == len(before) and all(x is y for x, y in zip(given, before)), "the input list changed")
    judge(H, segs, list(res), ids)


def wide(H, n, shape):
    """many segments, of which one has any place"""
    alg = H.load("docria.algorithm")
    at = H.choose("at", [0, n // 2, n - 1])
    a, b = H.int("a", 0, 3 * n), H.int("b", 0, 3 * n)
    H.assume(a < b)
    if shape == "stair":
        segs = [(2 * i, 2 * i + 3, False) for i in range(n)]
    elif shape == "nested":
        segs = [(i, 3 * n - i, False) for i in range(n)]
    else:
        segs = [(i * 7 % n * 3, i * 7 % n * 3 + i % 3, i % 3 == 0) for i in range(n)]
    segs[at] = (a, b, False)
    ids = [["data"] for _ in segs]
    res = alg.dominant_right([(x, y, d) for (x, y, e), d in zip(segs, ids)])
    judge(H, segs, list(res), ids)


def nodes(H, kinds, default=False):
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    t = H.text("t", 0, N)
    n = H.length(t)
    doc = m.Document()
    T = doc.add_text("main", t)
    f = "text" if default else "seg"
    L = doc.add_layer("l", **{f: m.DataTypes.span()})
    segs, ids = [], []
    for i, k in enumerate(kinds):
        if k == "a":
            L.add()
            continue
        if k == "v":
            L.add()[f] = None
            continue
        a = H.int("a%d" % i, 0, N)
        b = a if k == "e" else H.int("b%d" % i, 0, N)
        H.assume(b <= n)
        if k != "e":
            H.assume(a < b)
        segs.append((a, b, k == "e"))
        ids.append(L.add(**{f: T[a:b]}))
    res = alg.dominant_right_span(L) if default else alg.dominant_right_span(L, "seg")
    judge(H, segs, list(res), ids)


def JOBS(tier):
    top = 4 if tier == "quick" else 5
    js = []
    for n in range(top + 1):
        for k in range(n + 1):
            for ks in ["n" * (n - k) + "e" * k] + (["e" * k + "n" * (n - k)] if 0 < k < n else []):
                for o in itertools.permutations(range(n)) if n >= 4 else [None]:
                    js.append(("segments", {"kinds": ks, "order": o}))
    js += [("wide", {"n": 12 if tier == "quick" else 40, "shape": s}) for s in ("stair", "nested", "spread")]
    for ks in ("", "n", "e", "a", "nn", "ne", "na", "an", "nan", "nnn", "nne", "enn", "aen", "vn", "nva"):
        js.append(("nodes", {"kinds": ks, "default": len(ks) % 2 == 0}))
    return js
