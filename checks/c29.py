"""C29: The Java port groups by span and resolves overlaps by the same rules."""
import itertools
from c14 import intersects
from c15 import judge

JAVA = True
N = 30000
BOUNDS = {"quick": "overlap resolution of up to 3 segments with any offsets in 0..30000, non-empty or empty, in any order, and of 4 in six orders; of up to 3 "
                   "nodes with any spans of a text of that length or without one, and of up to 3 node spans over 5 tokens of which "
                   "one may have been removed; grouping of up to 3 spans in all, and of 4 of which two are empty, in one or two "
                   "layers; both resolutions; empty groups kept or not; five ways of building the query",
          "thorough": "up to 5 segments in any order, up to 4 spans to group, non-empty or empty"}
OUTSIDE = ("more segments or spans at once; segments with stop < start; the order of the nodes within a group; fields set to the null "
           "value; the Hadoop module")
ASSUMPTIONS = ["An empty segment occupies the position it stands at.",
               "fastutil and msgpack-java are not installed: they are replaced by plain functional stand-ins in /verif/java."]


def segments(H, kinds, order=None):
    a, b = [], []
    for i, k in enumerate(kinds):
        a.append(H.int("a%d" % i, 0, N))
        b.append(a[i] if k == "e" else H.int("b%d" % i, 0, N))
        if k != "e":
            H.assume(a[i] < b[i])
    for i, j in zip(order or (), (order or ())[1:]):
        # splits the work: one job per order of the starts
        H.assume(a[i] <= a[j] if i < j else a[i] < a[j])
    out = H.java("dominant", a, b)
    ids = [[i] for i in range(len(a))]
    judge(H, [(x, y, k == "e") for x, y, k in zip(a, b, kinds)], [ids[i] for i in out], ids)


def extents(H, nm, kinds, n):
    """starts and stops of spans of a text of length n; -1 is none"""
    a, b = [], []
    for i, k in enumerate(kinds):
        if k == "a":
            a.append(-1)
            b.append(-1)
            continue
        x = H.int("%sa%d" % (nm, i), 0, N)
        y = x if k == "e" else H.int("%sb%d" % (nm, i), 0, N)
        H.assume(y <= n)
        if k != "e":
            H.assume(x < y)
        a.append(x)
        b.append(y)
    return a, b


def nodes(H, kinds):
    t = H.text("t", 0, N)
    a, b = extents(H, "s", kinds, H.length(t))
    out = H.java("dominantNodes", t, a, b)
    H.check(all(kinds[i] != "a" for i in out), "a node without a span")
    at = [i for i, k in enumerate(kinds) if k != "a"]
    ids = [[i] for i in range(len(kinds))]
    judge(H, [(a[i], b[i], kinds[i] == "e") for i in at], [ids[i] for i in out], [ids[i] for i in at])


def runs(H, n, k, removed):
    alive = [i for i in range(n) if i not in removed]
    l, r = [], []
    for i in range(k):
        if H.bool("none%d" % i):
            l.append(-1)
            r.append(-1)
            continue
        l.append(H.choose("l%d" % i, alive))
        r.append(H.choose("r%d" % i, alive[alive.index(l[i]):]))
    out = H.java("dominantNodeSpans", n, list(removed), l, r)
    at = [i for i in range(k) if l[i] >= 0]
    ids = [[i] for i in range(k)]
    judge(H, [(l[i], r[i] + 1, False) for i in at], [ids[i] for i in out], [ids[i] for i in at])


def group(H, gk, nk, cover, empties, how):
    t = H.text("t", 0, N)
    n = H.length(t)
    ga, gb = extents(H, "g", gk, n)
    ks = (list(nk) + [""])[:2]
    aa, ab = extents(H, "x", ks[0], n)
    ba, bb = extents(H, "y", ks[1], n)
    out = H.java("group", t, ga, gb, aa, ab, ba, bb, cover, empties, how)
    spans = [[(x, y, k) for x, y, k in zip(*l)] for l in ((aa, ab, ks[0]), (ba, bb, ks[1]))]
    seen, last = [], None
    out = list(out)

    def want(g, x):
        (a, b, k), (c, d, l) = g, x
        if l == "a":
            return False
        w = intersects(H, (a, b), (c, d), k, l)
        return H.And(w, a <= c, d <= b) if cover else w
    while out:
        g = out.pop(0)
        H.check(0 <= g < len(gk) and gk[g] != "a" and g not in seen, "a group twice, without a span, or a node that is no group")
        seen.append(g)
        if last is not None:
            H.check(last <= ga[g], "groups in order of start")
        last = ga[g]
        count = 0
        for L in spans:
            at = out.index(-1)
            got, out = out[:at], out[at + 1:]
            H.check(all(0 <= x < len(L) for x in got) and len(set(got)) == len(got), "a node twice or a foreign node in a group")
            for i, x in enumerate(L):
                H.check(H.Iff(want((ga[g], gb[g], gk[g]), x), i in got), "membership of a node")
            count += len(got)
        if not empties:
            H.check(count > 0, "an empty group that was not asked for")
    for g in range(len(gk)):
        if gk[g] == "a" or g in seen:
            continue
        H.check(not empties, "a group is missing")
        for L in spans:
            for x in L:
                H.check(H.Not(want((ga[g], gb[g], gk[g]), x)), "a group with members is missing")
    H.observe("seen", seen)


def orders(n, quick):
    """the orders of the starts to look at: all of them, by one job for up to 3 segments"""
    if n < 4:
        return [None]
    if quick:
        return [(0, 1, 2, 3), (1, 2, 3, 0), (2, 0, 1, 3), (1, 3, 0, 2), (3, 2, 1, 0), (0, 3, 2, 1)]
    return itertools.permutations(range(n))


def JOBS(tier):
    q = tier == "quick"
    js = []
    for n in range(5 if q else 6):
        for k in range(n + 1):
            for ks in ["n" * (n - k) + "e" * k] + (["e" * k + "n" * (n - k)] if 0 < k < n else []):
                for o in orders(n, q):
                    js.append(("segments", {"kinds": ks, "order": o}))
    for ks in ("", "n", "e", "a", "nn", "ne", "na", "an", "nan", "nnn", "nne", "enn", "aen"):
        js.append(("nodes", {"kinds": ks}))
    js += [("runs", {"n": 5, "k": 2, "removed": r}) for r in ((), (0,), (2,))]
    js.append(("runs", {"n": 4, "k": 3, "removed": ()}))
    how = itertools.cycle(range(5))
    shapes = [("n", [""]), ("n", ["n"]), ("e", ["n"]), ("n", ["e"]), ("e", ["e"]), ("a", ["n"]), ("n", ["a"]), ("na", ["an"]),
              ("nn", ["n"]), ("ne", ["n"]), ("en", ["e"]), ("n", ["nn"]), ("n", ["n", "n"]), ("n", ["e", "n"]), ("e", ["n", "e"]),
              ("ne", ["ne"]), ("nn", ["e", "e"]), ("ee", ["nn"])]
    if not q:
        shapes += [("nn", ["nn"]), ("nn", ["ne"]), ("ne", ["nn"]), ("nn", ["n", "n"]), ("n", ["nnn"]), ("n", ["nn", "n"]),
                   ("nnn", ["n"]), ("nne", ["n", "e"])]
    for g, x in shapes:
        for cover in (False, True):
            for empties in (False, True):
                js.append(("group", {"gk": g, "nk": x, "cover": cover, "empties": empties, "how": next(how)}))
    return js
