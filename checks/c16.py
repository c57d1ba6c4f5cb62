"""C16: Token alignment returns one ordered span per token."""
from lib import attempt

N = 8000
BOUNDS = {"quick": "every text of at most 6 characters with every sequence of up to 4 tokens (lengths 0..3, at most 4 characters in "
                   "all, at most one empty) and look-ahead 0..3; every window of texts of at most 4 characters; texts made of up to "
                   "4 tokens of 1..8000 characters each with separators of 0..8000 characters in front, between and behind, in a "
                   "window of a longer text; repeated and nested tokens of up to 3 characters; 40 tokens, one token and one separator of any length",
          "thorough": "texts of at most 8 characters, tokens of at most 5 characters in all; windows of 6; up to 6 long tokens"}
OUTSIDE = "negative window bounds; look-ahead above 4; short texts with more tokens"
ASSUMPTIONS = []


def contained(t, tok, lo, hi):
    """does tok occur in t[lo:hi], and where first (plain search, written independently)"""
    for p in range(lo, hi - len(tok) + 1):
        if t[p:p + len(tok)] == tok:
            return p
    return -1


def small(H, n, lens, k, window=False, defaults=False):
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    t = H.chars("t", n, 0x4e00, 0x9fff)
    toks = [H.chars("k%d" % i, l, 0x4e00, 0x9fff) for i, l in enumerate(lens)]
    T = m.Document().add_text("main", t)
    lo, hi, kw = 0, n, {}
    if window:
        lo, hi = H.concrete(H.int("lo", 0, n)), H.concrete(H.int("hi", 0, n))
        H.assume(lo <= hi)
        kw = {"start_offset": lo, "stop_offset": hi}
        if hi == n and H.bool("open"):
            kw["stop_offset"] = None
    if not defaults:
        kw["k"] = k
    else:
        k = 1
    res = alg.sequence_to_textspans(toks, T, **kw)
    judge(H, t, toks, T, lo, hi, k, res)


def judge(H, t, toks, T, lo, hi, k, res):
    H.check(len(res) == len(toks), "one span per token")
    pos = lo
    skipped = False         # given up for a closer token that has not come yet
    for i, (s, tok) in enumerate(zip(res, toks)):
        H.check(s.text is T, "the text of a span")
        a, b = s.start, s.stop
        H.check(H.And(pos <= a, a <= b, b <= hi), "order, overlap or window")
        first = contained(t, tok, pos, hi)
        if len(s) > 0:
            H.check(str(s) == tok, "the string value of a span")
            H.check(t[a:b] == tok, "the characters of a span")
            H.check(first == a, "the nearest occurrence of a token")
        if len(tok) > 0 and first != -1:
            near = [contained(t, x, pos, hi) for x in toks[i + 1:i + 1 + k]]
            closer = any(p != -1 and p < first for p in near)
            H.check(closer or len(s) > 0, "a token that occurs was given up")
            H.check(not closer or skipped or len(s) == 0, "a token was taken although one of the next k occurs closer")
            skipped = len(s) == 0
        pos = b
    H.observe("r", [(s.start, s.stop) for s in res])


def exact(H, ntok, seps, k, window=False):
    """seps: which of the ntok + 1 places have a separator"""
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    toks = [H.text("k%d" % i, 1, N) for i in range(ntok)]
    gap = [H.text("s%d" % i, 0, N) if x == "1" else "" for i, x in enumerate(seps)]
    head = H.text("head", 0, N) if window else ""
    tail = H.text("tail", 0, N) if window else ""
    t = head
    want = []
    for i, x in enumerate(toks):
        t = t + gap[i]
        want.append((H.length(t), H.length(t) + H.length(x)))
        t = t + x
    t = t + gap[ntok]
    stop = H.length(t)
    T = m.Document().add_text("main", t + tail)
    kw = {"start_offset": H.length(head), "stop_offset": stop} if window else {}
    res = alg.sequence_to_textspans(toks, T, k=k, **kw)
    H.check(len(res) == ntok, "one span per token")
    for s, (a, b) in zip(res, want):
        H.check(H.And(s.start == a, s.stop == b), "the exact position of a token")
    H.observe("r", [(s.start, s.stop) for s in res])


def wide(H, n, k):
    """many tokens, one of them of any length, with separators of which one is of any length"""
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    at, sat = H.choose("at", [0, n // 2, n - 1]), H.choose("sat", [0, n // 2, n])
    toks = [H.text("k", 1, N) if i == at else "w%dx" % i for i in range(n)]
    t, want = "", []
    for i, x in enumerate(toks):
        t = t + (H.text("s", 0, N) if i == sat else " ")
        want.append((H.length(t), H.length(t) + H.length(x)))
        t = t + x
    T = m.Document().add_text("main", t + (H.text("s", 0, N) if sat == n else ""))
    res = alg.sequence_to_textspans(toks, T, k=k)
    H.check(len(res) == n, "one span per token")
    H.check(H.And(*[H.And(s.start == a, s.stop == b) for s, (a, b) in zip(res, want)]), "the exact position of a token")


def repeated(H, words, seps, k):
    """short tokens of any characters, separated by characters that occur in none of them: repeated and nested tokens"""
    m, alg = H.load("docria.model"), H.load("docria.algorithm")
    toks = [H.chars("k%d" % i, l, 0x4e00, 0x9fff) for i, l in enumerate(words)]
    gap = [H.chars("s%d" % i, l, 0x3041, 0x3096) for i, l in enumerate(seps)]
    t, want = "", []
    for i, x in enumerate(toks):
        t = t + gap[i]
        want.append((len(t), len(t) + len(x)))
        t = t + x
    t = t + gap[len(toks)]
    T = m.Document().add_text("main", t)
    res = alg.sequence_to_textspans(toks, T, k=k)
    H.check([(s.start, s.stop) for s in res] == want, "the exact position of a token")
    H.observe("n", len(res))


def JOBS(tier):
    q = tier == "quick"
    js = []
    import itertools
    for n in range(0, 7 if q else 9):
        for c in range(0, 5):
            for lens in itertools.product(range(0, 4), repeat=c):
                if sum(lens) > (4 if q else 5) or lens.count(0) > 1:
                    continue
                for k in range(0, max(c, 1)):
                    js.append(("small", {"n": n, "lens": lens, "k": k}))
    for n in range(0, 5 if q else 7):
        for lens in ([], [1], [2], [1, 1], [1, 2], [2, 1], [0, 1], [1, 1, 1]):
            js.append(("small", {"n": n, "lens": lens, "k": 1, "window": True}))
            js.append(("small", {"n": n, "lens": lens, "k": 1, "defaults": True}))
    for ntok in range(0, 5 if q else 7):
        for seps in {"1" * (ntok + 1), "0" * (ntok + 1), ("01" * 4)[:ntok + 1], ("10" * 4)[:ntok + 1]}:
            for k in range(0, 4):
                js.append(("exact", {"ntok": ntok, "seps": seps, "k": k, "window": k % 2 == 1}))
    for k in (0, 1, 3):
        js.append(("wide", {"n": 40 if q else 140, "k": k}))
    for words in ([1, 1], [1, 2], [2, 1], [2, 2], [1, 1, 1], [1, 2, 1], [2, 1, 1], [3, 1, 2]):
        for g in (1, 2):
            for k in (0, 1, 2):
                js.append(("repeated", {"words": words, "seps": [0] + [g] * len(words), "k": k}))
    return js
