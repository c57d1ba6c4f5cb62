"""C11: Boundary framing is transparent and marks split points."""
from lib import attempt

BOUNDS = {"quick": "for every exponent 12..30: 2 writes (3 for exponents 12, 13, 20, 30) of any size, together up to three "
                   "boundaries, a split or not after each; 2 reads of any size and one of the rest from the start, 1 from any sought "
                   "offset (2 for exponents 12, 20); models replayed up to exponent 20; 60 writes over three boundaries, of which one has any size; "
                   "collection files of 2 documents of any size, one per block, or 3, two per block, and flushed or not after each",
          "thorough": "4 writes, 3 reads, five boundaries"}
OUTSIDE = "more writes and boundaries per stream; underlying streams that return short reads before their end"
ASSUMPTIONS = []
BIG = True


def pieces(H, b, n, segs, small=0):
    """n byte strings of any size (or all but one of the given size), together at most segs boundaries"""
    top = segs << b
    if small:
        at = H.choose("at", [0, n // 2, n - 1])
        d = H.blob("d", 0, top - small * n)
        out = [d if i == at else H.blob("c%d" % i, small, small) for i in range(n)]
        return out, H.length(d) + small * (n - 1)
    out = [H.blob("d%d" % i, 0, top) for i in range(n)]
    tot = 0
    for d in out:
        tot = tot + H.length(d)
    H.assume(tot <= top)
    return out, tot


def absolute(o, b):
    """Position in the physical stream of data byte o (o < 4 * 2^b), written down boundary by boundary."""
    p = o + 1
    k = 1
    while k <= 8 and p >= k << b:
        p = p + 4
        k += 1
    return p


def frame(H, b, n, segs, small=0):
    """the physical stream: leading byte, data, and back offsets at the boundaries"""
    col = H.load("docria.collection")
    ds, tot = pieces(H, b, n, segs, small)
    out = H.io()
    w = col._BoundaryWriter(out, boundary=b)
    done, last = 0, 1
    splitting = H.choose("splits", [(), (0,), (1, 2, 5)]) if small else ()
    marks = []
    splits = []
    for i, d in enumerate(ds):
        w.write(d)
        if H.length(d) > 0:
            done = done + H.length(d)
        if (i % 7 in splitting if small else H.bool("s%d" % i)):
            w.split()
            splits.append(i)
    raw = out.getvalue()
    # leading byte
    H.check(raw[0:1] == bytes([b]), "leading boundary byte")
    # data and marks, walking the stream
    pos = 1
    k = 1
    split = 1
    for i, d in enumerate(ds):
        left, at = H.length(d), 0
        while left > 0:
            if pos == k << b:
                H.check(raw[pos:pos + 4] == back(H, split, pos), "offset back to the last split point")
                pos += 4
                k += 1
            take = (k << b) - pos
            if take > left:
                take = left
            H.check(raw[pos:pos + take] == d[at:at + take], "data in the physical stream")
            pos, at, left = pos + take, at + take, left - take
        if i in splits:
            split = pos
    H.check(H.length(raw) == pos, "something else in the physical stream")
    H.observe("size", pos)


def back(H, split, pos):
    v = split - pos
    if v < -0x80000000:
        v = -0x80000000
    return v.to_bytes(4, "big", signed=True)


def transfer(H, b, n, segs, reads, seek, small=0):
    """what is read is what was written"""
    col = H.load("docria.collection")
    ds, tot = pieces(H, b, n, segs, small)
    out = H.io()
    w = col._BoundaryWriter(out, boundary=b)
    data = b""
    for i, d in enumerate(ds):
        w.write(d)
        data = data + d
    r = col._BoundaryReader(H.io(out.getvalue()))
    at = 0
    for i in range(reads):
        if seek:
            at = H.choose("seek%d" % i, [0, 1, 4091, 4092, 6001, 8184]) if small else H.int("seek%d" % i, 0, segs << b)
            H.assume(at <= tot)
            r.seek(at)
        H.check(r.tell() == at, "tell")
        c = H.choose("n%d" % i, [1, 400, 5000]) if small else H.int("n%d" % i, 0, segs << b)
        got = r.read(c)
        e = H.Ite(at + c > tot, tot, at + c)
        H.check(H.length(got) == e - at, "length of what is read")
        H.check(got == data[at:e], "data read")
        at = e
    H.check(r.tell() == at, "tell")
    rest = r.read()
    H.check(rest == data[at:], "the rest of the data")
    H.check(H.length(r.read(4)) == 0 and H.length(r.read()) == 0, "nothing after the end")
    H.observe("at", at)


def collection(H, n, per, segs):
    """a collection file over the boundary stream: the end of the header and of every block is a split point"""
    col, c = H.load("docria.collection"), H.load("docria.codec")
    ds, tot = pieces(H, 12, n, segs)
    out, plain = H.io(), H.io()
    ws = [col.MsgpackDocumentWriter(o, num_docs_per_block=per, codec=col.get_codec("none"))
          for o in (plain, col._BoundaryWriter(out, boundary=12))]
    ends = [H.length(plain.getvalue())]
    held = 0
    for i, d in enumerate(ds):
        f = H.bool("f%d" % i) or i == n - 1
        for w in ws:
            w.write(c.MsgpackDocument(b"DM_1" + d))
            if f:
                w.flush()
        held += 1
        if f or held == per:
            ends.append(H.length(plain.getvalue()))
            held = 0
    data = plain.getvalue()
    H.check(H.length(data) == ends[-1], "written outside the blocks")
    raw = out.getvalue()
    H.check(raw[0:1] == bytes([12]), "leading boundary byte")
    pos, k, at, split = 1, 1, 0, 1
    for e in ends:
        while at < e:
            if pos == k << 12:
                H.check(raw[pos:pos + 4] == back(H, split, pos), "offset back to the start of the block")
                pos += 4
                k += 1
            take = (k << 12) - pos
            if take > e - at:
                take = e - at
            H.check(raw[pos:pos + take] == data[at:at + take], "data in the physical stream")
            pos, at = pos + take, at + take
        split = pos
    H.check(H.length(raw) == pos, "something else in the physical stream")
    H.observe("size", pos)


def exponent(H):
    """exponents outside 12..30 are refused"""
    col = H.load("docria.collection")
    b = H.concrete(H.int("b", 0, 39))
    out = H.io()
    ok = attempt(lambda: col._BoundaryWriter(out, boundary=b))[0]
    H.check(ok == (12 <= b <= 30), "exponent accepted by the writer")
    ok = attempt(lambda: col._BoundaryReader(H.io(bytes([b]) + b"data")))[0]
    H.check(ok == (12 <= b <= 30), "exponent accepted by the reader")


def JOBS(tier):
    q = tier == "quick"
    js = []
    for b in range(12, 31):
        rp = 0 if b > 20 else 20
        near = b in (12, 13, 20, 30)
        js.append(("frame", {"b": b, "n": (3 if near else 2) if q else 4, "segs": 3 if q else 5}, {"replays": rp}))
        js.append(("transfer", {"b": b, "n": (2 if near else 1) if q else 3, "segs": 3 if q else 4,
                                "reads": 2 if q else 3, "seek": False}, {"replays": rp}))
        js.append(("transfer", {"b": b, "n": (2 if near else 1) if q else 2, "segs": 3, "reads": 1 if q else 2, "seek": True},
                   {"replays": rp}))
        if b in (12, 20):
            js.append(("transfer", {"b": b, "n": 1, "segs": 2 if q else 3, "reads": 2 if q else 3, "seek": True}, {"replays": rp}))
    js.append(("frame", {"b": 12, "n": 60, "segs": 3, "small": 80}))
    js.append(("transfer", {"b": 12, "n": 24, "segs": 3, "reads": 1, "seek": True, "small": 250}))
    js.append(("transfer", {"b": 12, "n": 24, "segs": 3, "reads": 2, "seek": False, "small": 250}))
    js.append(("collection", {"n": 2 if q else 3, "per": 1, "segs": 2}))
    js.append(("collection", {"n": 3 if q else 4, "per": 2, "segs": 1 if q else 2}))
    js.append(("exponent",))
    return js
