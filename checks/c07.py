"""C07: Span comparison, covering and trimming are correct."""
from lib import attempt

N = 30000
BOUNDS = {"quick": "comparisons: any two spans/ranges over texts of 0..30000 characters; trimming: every span of every "
                   "text of at most 4 characters (any Unicode characters), and of 1 or 2 of them with up to 300 white space characters "
                   "before and behind",
          "thorough": "as quick, trimming over texts of at most 7 characters"}
OUTSIDE = "trimming of other long texts"
ASSUMPTIONS = ["Characters are Unicode code points without lone surrogates."]


def setup(H, lo=0, hi=N):
    m = H.load("docria.model")
    t = H.text("t", lo, hi)
    doc = m.Document()
    return m, t, doc.add_text("main", t)


def rng(H, name, n, proper=True):
    a, b = H.int(name + "s", 0, N), H.int(name + "e", 0, N)
    H.assume(H.And(a <= b, b <= n))
    return a, b


def relations(H, kind):
    m, t, T = setup(H)
    a, b = rng(H, "p", len(t))
    p = T[a:b]
    if kind == "span":
        c, d = rng(H, "q", len(t))
        q = T[c:d]
    elif kind == "other":
        u = H.text("u", 0, N)
        c, d = rng(H, "q", len(u))
        q = m.Document().add_text("main", u)[c:d]
    else:
        c, d = H.int("qs", -N, 2 * N), H.int("qe", -N, 2 * N)
        H.assume(c <= d)
        q = (c, d)
    cov, inter = bool(p.covered_by(q)), bool(p.intersected_by(q))
    H.check(H.Iff(cov, H.And(c <= a, b <= d)), "covered_by")
    H.check(H.Iff(inter, H.And(a < d, c < b)), "intersected_by")
    H.observe("r", [cov, inter])
    H.check(H.And(p.start == a, p.stop == b), "the span changed")
    if kind == "span":
        H.check(H.Iff(bool(q.intersected_by(p)), inter), "intersection is symmetric")


def equality(H):
    m, t, T = setup(H)
    a, b = rng(H, "p", len(t))
    c, d = rng(H, "q", len(t))
    via = H.choose("via", [0, 1])
    p = T[a:b]
    q = T[c:d] if via == 0 else T[c, d]
    same = H.And(a == c, b == d)
    r = p == q
    H.check(H.Iff(bool(r), same), "equality")
    H.check(H.Iff(bool(p != q), H.Not(same)), "inequality")
    if r:
        H.check(hash(p) == hash(q), "equal spans with different hashes")
        H.check(len({p, q}) == 1, "equal spans are different set elements")
    H.observe("eq", bool(r))


def equals_string(H):
    m, t, T = setup(H)
    a, b = rng(H, "p", len(t))
    c, d = rng(H, "q", len(t))
    p = T[a:b]
    s = t[c:d]
    # characters are pairwise different: equal strings are the same range or both empty
    same = H.Or(H.And(a == c, b == d), H.And(a == b, c == d))
    H.check(H.Iff(bool(p == s), same), "span == string")
    H.check(H.Iff(bool(s == p), same), "string == span")
    H.check(H.Iff(bool(p != s), H.Not(same)), "span != string")


def equals_chars(H, n):
    """the characters may be equal or not"""
    m = H.load("docria.model")
    t, s = H.chars("t", n), H.chars("s", n)
    T = m.Document().add_text("main", t)
    k = H.int("k", 0, n)
    p = T[0:k]
    same = k == n
    for i in range(n):
        same = H.And(same, ord(t[i]) == ord(s[i]))
    H.check(H.Iff(bool(p == s), same), "span == string")


def trim(H, n):
    m = H.load("docria.model")
    t = H.chars("t", n)
    T = m.Document().add_text("main", t)
    a = H.int("a", 0, n)
    b = H.int("b", 0, n)
    H.assume(a <= b)
    a, b = H.concrete(a), H.concrete(b)
    span = T[a:b]
    copy = span.trim()
    H.check(H.And(span.start == a, span.stop == b, str(span) == t[a:b]), "trim() changed the span")
    s, e = a, b
    while s < e and t[s].isspace():
        s += 1
    while s < e and t[e - 1].isspace():
        e -= 1
    if s == e:
        H.check(H.And(len(copy) == 0, a <= copy.start, copy.start <= b), "nothing left: not an empty span within it")
        H.check(str(copy) == "", "string value of an empty trim")
    else:
        H.check(H.And(copy.start == s, copy.stop == e), "trim() offsets")
        H.check(str(copy) == t[s:e], "trim() string value")
    H.check(copy.text is T, "trim() changed the text")
    H.observe("copy", [copy.start, copy.stop])
    other = T[a:b]
    res = other.trim_()
    H.check(res is other, "trim_() returns the span")
    H.check(H.And(other.start == copy.start, other.stop == copy.stop), "trim_() differs from trim()")
    H.check(H.And(other.start_offset == copy.start_offset, other.stop_offset == copy.stop_offset),
            "trim_() offsets differ from trim()")
    H.check(H.And(str(other) == str(copy), other == copy, len(other) == len(copy)), "trim_() differs from trim()")
    again = copy.trim()
    H.check(H.And(again.start == copy.start, again.stop == copy.stop), "trimming twice")


def trim_wide(H, lead, trail, body):
    """long runs of white space around and within"""
    m = H.load("docria.model")
    ws = " \t\n\r\u00a0\u2003\u3000\x1c"
    mid = H.chars("t", body)
    t = "".join(ws[i % 8] for i in range(lead)) + mid + "".join(ws[i % 7] for i in range(trail))
    n = lead + body + trail
    T = m.Document().add_text("main", t)
    a, b = H.choose("a", sorted({0, lead // 2, lead})), n - H.choose("b", sorted({0, trail // 2, trail}))
    s, e = a, b
    while s < e and t[s].isspace():
        s += 1
    while s < e and t[e - 1].isspace():
        e -= 1
    x, y = T[a:b].trim(), T[a:b]
    y.trim_()
    for r in (x, y):
        if s == e:
            H.check(H.And(len(r) == 0, a <= r.start, r.start <= b), "nothing left: not an empty span within it")
        else:
            H.check(H.And(r.start == s, r.stop == e), "trimmed offsets")
            H.check(str(r) == t[s:e], "trimmed string value")


def JOBS(tier):
    js = [("relations", {"kind": k}) for k in ("span", "other", "range")]
    js += [("equality",), ("equals_string",)]
    js += [("equals_chars", {"n": n}) for n in range(0, 4)]
    js += [("trim", {"n": n}) for n in range(0, 5 if tier == "quick" else 8)]
    js += [("trim_wide", {"lead": a, "trail": b, "body": 2}) for a, b in ((40, 0), (0, 40), (40, 40))]
    js += [("trim_wide", {"lead": 300, "trail": 300, "body": 1})]
    return js
