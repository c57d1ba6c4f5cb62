"""C06: Text and span slicing agrees with string slicing."""
from lib import attempt, clip

N = 30000
BOUNDS = {"quick": "text length 0..30000 (any), every slice bound in -30002..30002 or omitted; spans of spans to depth 2; "
                   "iteration over texts of at most 3 characters, and of 150",
          "thorough": "as quick, spans of spans to depth 3, iteration over texts of at most 6 characters"}
OUTSIDE = "texts over 30000 characters; texts whose characters matter (slicing never looks at them)"
ASSUMPTIONS = ["A text is modelled by its length and the identity of each character position (all different)."]


def doc_text(H, lo=0, hi=N):
    m = H.load("docria.model")
    t = H.text("t", lo, hi)
    doc = m.Document()
    return m, t, doc.add_text("main", t)


def bound(H, name, given):
    return H.int(name, -N - 2, N + 2) if given else None


def expect_span(H, res, ok, start, stop, s, text):
    """res must be the span [start, stop) of s when ok and a refusal otherwise"""
    good, v = res
    if not good:
        H.check(H.Not(ok), "a valid range was refused")
        return None
    H.check(ok, "an invalid range was accepted")
    H.check(H.And(v.start == start, v.stop == stop), "wrong offsets")
    H.check(len(v) == stop - start, "wrong length")
    H.check(str(v) == s[start:stop], "wrong string value")
    H.check(v.text is text, "wrong text")
    H.observe("span", [v.start, v.stop])
    return v


def text_slice(H, form):
    m, t, T = doc_text(H)
    n = len(t)
    a, b = bound(H, "a", form[0] == "x"), bound(H, "b", form[1] == "x")
    s, e = clip(H, a, n, 0), clip(H, b, n, n)
    step = H.choose("step", [None, 1])
    expect_span(H, attempt(lambda: T[a:b:step]), s <= e, s, e, t, T)


def text_step(H):
    m, t, T = doc_text(H, 0, 10)
    step = H.choose("step", [-1, 2, 0])
    ok, v = attempt(lambda: T[0:len(t):step])
    H.check(not ok, "a step other than 1 was accepted")


def text_pair(H):
    m, t, T = doc_text(H)
    n = len(t)
    a, b = bound(H, "a", True), bound(H, "b", True)
    expect_span(H, attempt(lambda: T[a, b]), H.And(0 <= a, a <= b, b <= n), a, b, t, T)


def text_index(H):
    m, t, T = doc_text(H)
    n = len(t)
    i = bound(H, "i", True)
    ok, v = attempt(lambda: T[i])
    valid = H.And(i >= -n, i < n)
    if ok:
        H.check(valid, "an index outside the text was accepted")
        k = H.Ite(i < 0, i + n, i)
        H.check(v == t[k:k + 1], "wrong character")
        H.observe("c", v)
    else:
        H.check(H.Not(valid), "a valid index was refused")
    H.check(H.And(len(T) == n, str(T) == t), "text is not its string")


def span_in(H, T, t, name):
    a, b = H.int(name + "s", 0, N), H.int(name + "e", 0, N)
    H.assume(H.And(a <= b, b <= len(t)))
    return a, b, T[a:b]


def span_slice(H, form, depth):
    m, t, T = doc_text(H)
    s, e, sp = span_in(H, T, t, "p")
    for k in range(depth):
        n = e - s
        a, b = bound(H, "a%d" % k, form[0] == "x"), bound(H, "b%d" % k, form[1] == "x")
        ra, rb = clip(H, a, n, 0), clip(H, b, n, n)
        sp = expect_span(H, attempt(lambda: sp[a:b]), ra <= rb, s + ra, s + rb, t, T)
        if sp is None:
            return
        s, e = s + ra, s + rb


def span_pair(H):
    m, t, T = doc_text(H)
    s, e, sp = span_in(H, T, t, "p")
    n = e - s
    a, b = bound(H, "a", True), bound(H, "b", True)
    expect_span(H, attempt(lambda: sp[a, b]), H.And(0 <= a, a <= b, b <= n), s + a, s + b, t, T)


def span_step(H):
    m, t, T = doc_text(H, 0, 10)
    s, e, sp = span_in(H, T, t, "p")
    step = H.choose("step", [-1, 2, 0])
    ok, v = attempt(lambda: sp[0:1:step])
    H.check(not ok, "a step other than 1 was accepted")


def span_index(H):
    m, t, T = doc_text(H)
    s, e, sp = span_in(H, T, t, "p")
    n = e - s
    i = bound(H, "i", True)
    ok, v = attempt(lambda: sp[i])
    valid = H.And(i >= -n, i < n)
    if ok:
        H.check(valid, "an index outside the span was accepted")
        k = s + H.Ite(i < 0, i + n, i)
        H.check(v == t[k:k + 1], "wrong character")
        H.observe("c", v)
    else:
        H.check(H.Not(valid), "a valid index was refused")


def join(H):
    m, t, T = doc_text(H)
    a, b, p = span_in(H, T, t, "p")
    c, d, q = span_in(H, T, t, "q")
    H.assume(a <= d)
    H.check(p.text_to(q) == t[a:d], "joined string")
    expect_span(H, attempt(lambda: p.span_to(q)), True, a, d, t, T)
    # the joined spans are left as they were
    H.check(H.And(p.start == a, p.stop == b, q.start == c, q.stop == d), "joining changed a span")


def iterate(H, n):
    m, t, T = doc_text(H, n, n)
    a, b = H.int("a", 0, n), H.int("b", 0, n)
    H.assume(a <= b)
    sp = T[a:b]
    got = [c for c in sp]
    H.check(len(got) == b - a, "number of characters of a span")
    for i in range(len(got)):
        H.check(got[i] == t[a + i:a + i + 1], "character %d of a span" % i)
    all_ = [c for c in T]
    H.check(len(all_) == n, "number of characters of a text")
    for i in range(n):
        H.check(all_[i] == t[i:i + 1], "character of a text")
    H.observe("n", len(got))


def wide(H, n):
    """iteration over longer texts and spans"""
    m, t, T = doc_text(H, n, n)
    a = H.concrete(H.int("a", 0, 3)) * (n // 3)
    b = n - H.choose("b", [0, 1, n // 2])
    sp = attempt(lambda: T[a:b])
    if a > b:
        H.check(not sp[0], "an invalid range was accepted")
        return
    got = [c for c in sp[1]]
    H.check(len(got) == b - a == len(sp[1]), "number of characters of a span")
    for i, c in enumerate(got):
        H.check(c == t[a + i:a + i + 1], "character of a span")
    got = [c for c in T]
    H.check(len(got) == n, "number of characters of a text")
    for i, c in enumerate(got):
        H.check(c == t[i:i + 1], "character of a text")


def two_texts(H):
    """the span belongs to the text it was cut from"""
    m = H.load("docria.model")
    t, u = H.text("t", 0, N), H.text("u", 0, N)
    doc = m.Document()
    T, U = doc.add_text("main", t), doc.add_text("title", u)
    a, b, p = span_in(H, T, t, "p")
    c, d, q = span_in(H, U, u, "q")
    H.check(str(p) == t[a:b], "span of the first text")
    H.check(str(q) == u[c:d], "span of the second text")
    H.check(H.And(p.text is doc.texts["main"], q.text is doc.texts["title"]), "texts")


def JOBS(tier):
    js = [("text_slice", {"form": f}) for f in ("xx", "x-", "-x", "--")]
    js += [("text_step",), ("text_pair",), ("text_index",), ("span_pair",), ("span_step",), ("span_index",), ("join",),
           ("two_texts",)]
    js.append(("wide", {"n": 150}))
    d = 2 if tier == "quick" else 3
    js += [("span_slice", {"form": f, "depth": d}) for f in ("xx", "x-", "-x", "--")]
    js += [("iterate", {"n": n}) for n in range(0, 4 if tier == "quick" else 7)]
    return js
