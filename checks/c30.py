"""C30: The Java port reads and writes the same streams and files."""
from c11 import pieces, back

JAVA = True
BIG = True
BOUNDS = {"quick": "boundary streams for every exponent 12 to 30 (and its refusal outside of them), 2 or 3 writes of any length up to 3 boundaries (1 at "
                   "2^30, where Java's arrays end), with a split point or none after each, single bytes of any value; reading them back by 3 operations of any size "
                   "(reads, short reads below, single bytes, skips), written by Java or by Python; logical lengths between any two offsets within 5 "
                   "boundaries at exponents 12, 20 and 30; files of up to 3 documents of any content and up to 70000 bytes (300 with 3), 1 or 2 per block, a flush after any "
                   "of them, with and without boundaries; 3 operations in any order on a reader (next, skip, skip n, skip a block, read a block, count) followed by next; 2 concurrent readers of "
                   "blocks at 3 points of switching; zip with 2 documents of up to 1500 bytes and zipsq with 1; the output buffer under 3 writes of any length",
          "thorough": "5 boundaries; up to 4 documents; zipsq with 2"}
OUTSIDE = ("more documents, writes or operations; streams of 2^31 bytes or more in memory; other switching points of threads; corrupted input; the Hadoop module")
ASSUMPTIONS = ["fastutil and msgpack-java are not installed: they are replaced by plain functional stand-ins in /verif/java.",
               "Symbolic bytes deflate to 9 to 2600 arbitrary bytes of which only the whole inflates, to what was deflated.",
               "The stream below reads nothing for a length of 0, as file streams do."]




def frame(H, b, n, segs, single=()):
    """the physical stream: leading byte, data, and back offsets at the boundaries"""
    ds, tot = pieces(H, b, n, segs)
    junk = H.choose("junk", [0, 2]) if n > 1 else 0
    data = bytes([7] * junk)
    lengths, splits = [], []
    for i, d in enumerate(ds):
        if i in single:
            ds[i] = d = byte(H, "v%d" % i)
            lengths.append(-1)
        else:
            lengths.append(H.length(d))
        data = data + d
        if H.bool("s%d" % i):
            lengths.append(-2)
            splits.append(i)
    raw = H.java("boundaryWrite", b, data, lengths, junk)
    H.check(raw[0:1] == bytes([b]), "leading boundary byte")
    pos, k, split = 1, 1, 1
    for i, d in enumerate(ds):
        left, at = H.length(d), 0
        while left > 0:
            if pos == k << b:
                H.check(raw[pos:pos + 4] == back(H, split, pos), "offset back to the last split point")
                pos += 4
                k += 1
            take = (k << b) - pos
            if take > left:
                take = left
            H.check(raw[pos:pos + take] == d[at:at + take], "data in the physical stream")
            pos, at, left = pos + take, at + take, left - take
        if i in splits:
            split = pos
    H.check(H.length(raw) == pos, "something else in the physical stream")
    H.observe("size", pos)


def byte(H, nm):
    return H.int(nm, 0, 255).to_bytes(1, "big")


def through(data, b):
    """the data with the marks of a boundary stream without split points"""
    raw, pos, k, at = bytes([b]), 1, 1, 0
    n = len(data)
    while at < n:
        if pos == k << b:
            raw = raw + (1 - pos).to_bytes(4, "big", signed=True)
            pos += 4
            k += 1
        take = (k << b) - pos
        if take > n - at:
            take = n - at
        raw = raw + data[at:at + take]
        pos, at = pos + take, at + take
    return raw


def transfer(H, b, n, segs, ops, by, most=0):
    """what is read is what was written, by the Java or the Python writer"""
    ds, tot = pieces(H, b, n, segs)
    if 1 in ops:
        # a known byte where a single one is read
        ds = [ds[0], byte(H, "v"), H.blob("rest", 0, 100)]
        tot = H.length(ds[0]) + 1 + H.length(ds[2])
    if ops[0] == 1:
        H.assume(H.length(ds[0]) == 0)
    data = b""
    for d in ds:
        data = data + d
    if by == "java":
        raw = H.java("boundaryWrite", b, data, [H.length(d) for d in ds], 0)
    else:
        out = H.io()
        w = H.load("docria.collection")._BoundaryWriter(out, boundary=b)
        for d in ds:
            w.write(d)
        raw = out.getvalue()
    sizes = []
    for i, o in enumerate(ops):
        k = 1 if o == 1 else (segs + 1 << b) if o == 3 else H.int("n%d" % i, 0, segs << b)
        if ops[i + 1:i + 2] == (1,):
            H.assume(k == H.length(ds[0]))
            if o == 2:
                # no mark in the way
                H.assume(k < 1 << b)
        sizes.append(k)
    got = H.java("boundaryRead", raw, [0 if o == 3 else o for o in ops], sizes, most)
    res = H.java("results")
    at, used = 0, 0
    for o, k, r in zip(ops, sizes, res):
        left = tot - at
        if o == 1:
            if at != H.length(ds[0]):
                # a skip that was cut short
                H.assume(False)
            H.check(r == data[at], "the byte read")
            H.check(got[used:used + 1] == data[at:at + 1], "the byte read")
            at, used = at + 1, used + 1
        elif o == 2:
            H.check(H.And(0 <= r, r <= k, r <= left), "bytes skipped")
            at = at + r
        else:
            e = k if k < left else left
            if H.And(k > 0, left <= 0):
                H.check(r == -1, "data after the end")
            else:
                H.check(r == e, "length of what is read")
                H.check(got[used:used + e] == data[at:at + e], "data read")
                at, used = at + e, used + e
    H.check(H.length(got) == used, "data in excess")
    H.observe("at", at)


def exponent(H):
    b = H.choose("b", range(41))
    for w in (False, True):
        H.check(H.Iff(H.java("exponent", b, w), 12 <= b <= 30), "exponent accepted")


def logical(H, b):
    """the logical length between two physical offsets of data"""
    top = 5 << b
    p, q = H.int("p", 1, top), H.int("q", 1, top)
    H.assume(p <= q)

    def index(x):
        """number of data bytes before physical offset x, which stands at data or at a mark's start"""
        k = 0
        while k < 6 and x > (k + 1) << b:
            k += 1
        return x - 1 - 4 * k
    for x in (p, q):
        for k in range(1, 6):
            # not inside of a mark
            H.assume(H.Or(x <= k << b, x >= (k << b) + 4))
    H.check(H.java("logical", b, p, q) == index(q) - index(p), "logical length")


def documents(H, n, top):
    ds = [b"DM_1" + H.blob("d%d" % i, 0, top) for i in range(n)]
    data = b""
    for d in ds:
        data = data + d
    return ds, data, [H.length(d) for d in ds]


def binary(d):
    """a byte string of the format, written down from its definition"""
    n = len(d)
    k = 1 if n < 256 else 2 if n < 65536 else 4
    head = bytes([{1: 0xc4, 2: 0xc5, 4: 0xc6}[k]])
    while k:
        k -= 1
        head = head + (n // 256 ** k % 256).to_bytes(1, "big")
    return head + d


def layout(n, per, flushes):
    """numbers of documents per block"""
    blocks, held = [], 0
    for i in range(n):
        held += 1
        if held == per or flushes >> i & 1 or i == n - 1:
            blocks.append(held)
            held = 0
    return blocks


def expected(ds, per, flushes):
    """the file of these documents"""
    raw = b"Dmf1\xa4none" + bytes([per]) + b"\xc2"
    at = 0
    for k in layout(len(ds), per, flushes):
        block = b""
        for d in ds[at:at + k]:
            block = block + binary(d)
        raw = raw + binary(block)
        at += k
    return raw


def write(H, n, per, top, boundary):
    """files are of the format that the Python implementation reads and writes (see C10)"""
    ds, data, ls = documents(H, n, top)
    f = H.choose("flush", range(1 << n)) if n <= 2 else H.choose("flush", [0, 1, 2, 5])
    want = expected(ds, per, f)
    raw = H.java("fileWrite", data, ls, per, "none", 0, f)
    H.check(raw == want, "the file")
    H.observe("len", H.length(raw))
    if boundary:
        raw = H.java("fileWrite", data, ls, per, "none", boundary, f)
        got = H.load("docria.collection")._BoundaryReader(H.io(raw)).read()
        H.check(got == want, "the same file through boundaries")


def packed(H, n, per, top, codec, by):
    """the compressed codecs, in both directions between the implementations"""
    ds, data, ls = documents(H, n, top)
    col = H.load("docria.collection")
    if by == "java":
        raw = H.java("fileWrite", data, ls, per, codec, 0, 0)
        r = col.MsgpackDocumentReader(H.io(raw))
        for d in ds:
            H.check(next(r).binary() == d, "document read by Python")
    else:
        raw = b"Dmf1" + bytes([0xa0 + len(codec)]) + codec.encode() + bytes([per]) + b"\xc2"
        at = 0
        for k in layout(n, per, 0):
            block = b""
            for d in ds[at:at + k]:
                block = block + binary(d)
            for _ in range(1 if codec == "zip" else 2):
                block = col.get_codec("zip").compress(block)
                H.assume(H.length(block) <= 2600)
            raw = raw + binary(block)
            at += k
    got = H.java("fileReadPlain", raw, [0] * (n + 1), [0] * (n + 1), False, 0)
    H.check(got == data, "documents read by Java")
    H.check(list(H.java("results")) == [H.length(d) for d in ds] + [-1], "documents read by Java")


def marks(H, n, per, segs):
    """in files with boundaries the ends of blocks are split points"""
    b = 12
    ds, data, ls = documents(H, n, segs << b)
    tot = 0
    for x in ls:
        tot = tot + x
    H.assume(tot <= segs << b)
    f = H.choose("flush", [0, 1]) if per > 1 else 0
    want = expected(ds, per, f)
    ends, at = [], 0
    head = len(b"Dmf1\xa4none") + 2
    for k in layout(n, per, f):
        at += k
        ends.append(H.length(expected(ds[:at], per, f)))
    raw = H.java("fileWrite", data, ls, per, "none", b, f)
    pos, k, at, split, first = 1, 1, 0, 1, True
    for e in ends:
        while at < e:
            if pos == k << b:
                # the offsets in the first block may lead back to the header or to its end
                H.check(H.Or(raw[pos:pos + 4] == back(H, split, pos), first and raw[pos:pos + 4] == back(H, 1 + head, pos)),
                        "offset back to the start of the block")
                pos += 4
                k += 1
            take = (k << b) - pos
            if take > e - at:
                take = e - at
            H.check(raw[pos:pos + take] == want[at:at + take], "data in the physical stream")
            pos, at = pos + take, at + take
        split, first = pos, False
    H.check(H.length(raw) == pos, "something else in the physical stream")
    H.observe("size", pos)


def read(H, n, per, top, ops, plain, by, boundary, most=0):
    """every document is delivered once and in order, by any mix of operations"""
    ds, data, ls = documents(H, n, top)
    f = H.choose("flush", [0, 1])
    if by == "java":
        raw = H.java("fileWrite", data, ls, per, "none", boundary, f)
    else:
        raw = expected(ds, per, f)
        if boundary:
            raw = through(raw, boundary)
    blocks = layout(n, per, f)
    todo = [H.choose("op%d" % i, ops) for i in range(3)]
    sizes = [H.int("k%d" % i, 0, n + 1) if o == 2 else 0 for i, o in enumerate(todo)]
    todo.append(0)
    sizes.append(0)
    got = H.java("fileReadPlain" if plain else "fileRead", raw, todo, sizes, bool(boundary), most)
    res = H.java("results")
    # the oracle: documents left in the block that is open, and blocks left
    at, used, opened = 0, 0, 0
    bs = list(blocks)

    def deliver(k):
        nonlocal at, used
        for _ in range(k):
            H.check(got[used:used + ls[at]] == ds[at], "the document delivered")
            used, at = used + ls[at], at + 1
    for o, k, r in zip(todo, sizes, res):
        if o == 0:
            if at >= n:
                H.check(r == -1, "a document after the last one")
                continue
            H.check(r == ls[at], "length of a document")
            if not opened:
                opened = bs.pop(0)
            opened -= 1
            deliver(1)
        elif o in (1, 2):
            c = n - at
            if o == 1:
                c = min(c, 1)
            else:
                c = H.concrete(H.Ite(k < c, k, c))
            H.check(r == c, "documents skipped")
            for _ in range(c):
                if not opened:
                    opened = bs.pop(0)
                opened -= 1
                at += 1
        elif o == 3:
            # blocks are skipped as units: of use only where no block is open
            if opened:
                H.assume(False)
            H.check(r == (1 if bs else 0), "a block skipped")
            if bs:
                at += bs.pop(0)
        elif o == 5:
            if opened:
                H.assume(False)
            H.check(r == (bs[0] if bs else -1), "documents of a block")
            if bs:
                deliver(bs.pop(0))
        else:
            H.check(r == n - at, "count of the documents left")
            at, opened, bs = n, 0, []
    H.check(H.length(got) == used, "data in excess")
    H.observe("at", at)


def shared(H, n, per, top):
    """two readers of blocks at once: each block goes to one of them, in whatever order they run"""
    ds, data, ls = documents(H, n, top)
    raw = H.java("fileWrite", data, ls, per, "none", 0, 0)
    got = H.java("fileShared", raw, H.choose("at", [0, 1, 2]))
    a, b = b"", b""
    for d in ds[:per]:
        a = a + d
    for d in ds[per:2 * per]:
        b = b + d
    H.check(H.Or(got == a + b, got == b + a), "each block to one reader")


def buffer(H, size, n, top):
    d, ops = b"", []
    for i in range(n):
        if H.bool("byte%d" % i):
            ops.append(-1)
            d = d + byte(H, "v%d" % i)
        else:
            x = H.blob("x%d" % i, 0, top)
            ops.append(H.length(x))
            d = d + x
    got = H.java("buffer", size, d, ops)
    H.check(got == d, "what was written to the buffer")


def JOBS(tier):
    q = tier == "quick"
    js = []
    for b in range(12, 31):
        rp = 0 if b > 20 else 20
        near = b in (12, 20, 30)
        # no array of Java reaches 2^31
        top = {30: 1, 29: 3}.get(b, 3 if q or not near else 5)
        js.append(("frame", {"b": b, "n": (3 if b == 12 else 2) if q else 3, "segs": top}, {"replays": rp}))
        js.append(("frame", {"b": b, "n": 3 if near else 2, "segs": min(top, 3), "single": (1,)}, {"replays": rp}))
        if near:
            js.append(("logical", {"b": b}))
    for by in ("java", "python"):
        for ops in ((0, 0, 3), (0, 1, 3), (2, 0, 3), (1, 0, 0), (0, 2, 3), (2, 1, 3)):
            js.append(("transfer", {"b": 12, "n": 2 if by == "java" and ops[0] == 0 else 1, "segs": 2, "ops": ops, "by": by}))
    js.append(("transfer", {"b": 20, "n": 1, "segs": 3, "ops": (0, 0, 3), "by": "java"}))
    js.append(("transfer", {"b": 28, "n": 1, "segs": 3, "ops": (0, 1, 0), "by": "java"}, {"replays": 0}))
    js.append(("transfer", {"b": 12, "n": 1, "segs": 2, "ops": (0, 3), "by": "java", "most": 1500}))
    js.append(("exponent",))
    for n, per in ((0, 1), (1, 1), (2, 1), (2, 2), (3, 2)) + (() if q else ((4, 2), (4, 3))):
        js.append(("write", {"n": n, "per": per, "top": 70000 if n < 3 else 300, "boundary": 12 if n < 2 else 18}))
    for by in ("java", "python"):
        js.append(("packed", {"n": 2, "per": 1, "top": 300, "codec": "zip", "by": by}))
        js.append(("packed", {"n": 2, "per": 2, "top": 1500 if q else 2500, "codec": "zip", "by": by}))
        js.append(("packed", {"n": 1, "per": 1, "top": 1500, "codec": "zipsq", "by": by}))
        if not q:
            js.append(("packed", {"n": 2, "per": 1, "top": 300, "codec": "zipsq", "by": by}))
    js.append(("marks", {"n": 2, "per": 1, "segs": 2}))
    js.append(("marks", {"n": 3, "per": 2, "segs": 1 if q else 2}))
    for plain in (False, True):
        for n, per in ((2, 1), (3, 2)) + (() if q else ((4, 2),)):
            js.append(("read", {"n": n, "per": per, "top": 300 if n == 2 else 20, "ops": (0, 1, 2, 4), "plain": plain,
                                "by": "java" if plain else "format", "boundary": 0}))
            js.append(("read", {"n": n, "per": per, "top": 300, "ops": (0, 3, 5) if plain else (0, 3, 1), "plain": plain,
                                "by": "format" if plain else "java", "boundary": 0}))
    js.append(("read", {"n": 2, "per": 1, "top": 9000, "ops": (0,), "plain": False, "by": "java", "boundary": 12}))
    js.append(("read", {"n": 2, "per": 2, "top": 9000, "ops": (0,), "plain": True, "by": "format", "boundary": 12, "most": 5000}))
    js.append(("shared", {"n": 2, "per": 1, "top": 300}))
    js.append(("shared", {"n": 4, "per": 2, "top": 20}))
    for size in (0, 5):
        js.append(("buffer", {"size": size, "n": 3, "top": 3100 if size == 0 else 16}))
    return js
