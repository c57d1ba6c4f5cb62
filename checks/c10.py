"""C10: A truncated collection file yields only complete, correct documents."""
import c09
from c09 import RESET, codec, makedocs, samedoc, CODECS

BOUNDS = {"quick": "files of 3 documents of any encoded size up to 60000 bytes in every block layout (any documents-per-block "
                   "setting, a flush or not after every document), cut at every byte after the header; compressed sizes "
                   "arbitrary; every codec; writes that fail part-way through; files of 150 documents in blocks of 4 sizes, cut near the "
                   "end of a chosen block",
          "thorough": "4 documents"}
OUTSIDE = ("more documents; corruption other than truncation; operating system buffering (a byte counts as written once handed to "
           "the output stream)")
ASSUMPTIONS = ["The compression libraries reject or are never given an incomplete block."]


def write(H, out, ds, cname, flushes=True):
    """Writes and returns the header size, per block (end position, document numbers), and the sizes after every step."""
    col = H.load("docria.collection")
    per = H.int("per", 0, len(ds) + 1)
    w = col.MsgpackDocumentWriter(out, num_docs_per_block=per, codec=codec(H, col, cname))
    header = out.tell()
    ends, cur, steps = [], [], [(header, 0)]
    done = 0
    for i, (d, p) in enumerate(ds):
        w.write(d)
        cur.append(i)
        if len(cur) == per:
            ends.append((out.tell(), cur))
            done, cur = done + len(cur), []
        steps.append((out.tell(), done))
        if flushes and H.bool("flush%d" % i):
            w.flush()
            if cur:
                ends.append((out.tell(), cur))
            done, cur = done + len(cur), []
            steps.append((out.tell(), done))
    w.flush()
    if cur:
        ends.append((out.tell(), cur))
    steps.append((out.tell(), len(ds)))
    return header, ends, steps


def readall(H, data, how):
    col = H.load("docria.collection")
    r = col.MsgpackDocumentReader(H.io(data))
    if how == "seq":
        got = [d for d in r]
        H.check(next(r, None) is None, "reading does not end")
    else:
        got = [d for b in r.blocks() for d in b]
        H.check(r.readblock() is None, "reading does not end")
    return got


def cut(H, n, cname, how, hi=20000, flushes=True):
    """the file ends at any byte"""
    ds = makedocs(H, n, hi)
    out = H.io()
    header, ends, steps = write(H, out, ds, cname, flushes)
    data = out.getvalue()
    size = out.tell()
    if cname in ("h", "none"):
        at = H.int("cut", 0, 2 ** 31)
        H.assume(H.And(at >= header, at <= size))
    else:
        # relative to a block: the real compressed sizes are those of the library, not the solver's
        k = H.concrete(H.int("block", 0, len(ends)))
        for a, b in zip([header] + [e for e, _ in ends], [e for e, _ in ends]):
            H.assume(b - a > 40)
        at = (ends[k - 1][0] if k else header) + H.int("cut", -20, 20)
        H.assume(H.And(at >= header, at <= size))
    got = readall(H, data[:at], how)
    want = []
    for end, ids in ends:
        if not at >= end:
            break
        want += ids
    H.check(len(got) == len(want), "documents read from a truncated file")
    for d, i in zip(got, want):
        samedoc(H, d, ds, i, hi == 0)
    H.observe("want", want)


def wide(H, n, cname, default):
    """many documents in blocks of the default size or another one, the file ends near the end of a block"""
    col, m = H.load("docria.collection"), H.load("docria.model")
    ds = []
    for i in range(n):
        d = m.Document(k=i, s="s%d" % i)
        d.add_text("main", "ab%d" % i)
        d.add_layer("tok", v=m.DataTypes.int32(None), s=m.DataTypes.span("main")).add(v=100 + i, s=d.texts["main"][1:3])
        ds.append((d, {"k": i, "s": "s%d" % i}))
    out = H.io()
    per = 128 if default else H.choose("per", [1, 30, n - 1])
    w = col.MsgpackDocumentWriter(out, codec=codec(H, col, cname), **({} if default else {"num_docs_per_block": per}))
    header = H.length(out.getvalue())
    ends = []
    for i, (d, p) in enumerate(ds):
        w.write(d)
        if (i + 1) % per == 0:
            ends.append(H.length(out.getvalue()))
    w.flush()
    if n % per:
        ends.append(H.length(out.getvalue()))
    data = out.getvalue()
    # around the end of one of the blocks
    k = H.choose("block", sorted({0, len(ends) // 2, len(ends) - 1}))
    at = ([header] + ends)[H.choose("side", [k, k + 1])] + H.int("cut", -3, 3)
    H.assume(H.And(at >= header, at <= H.length(data)))
    got = readall(H, data[:at], H.choose("how", ["seq", "blocks"]))
    full = len([1 for e in ends if bool(at >= e)])
    H.check(len(got) == min(full * per, n), "documents read from a truncated file")
    for i in sorted({0, len(got) // 2, len(got) - 1} & set(range(len(got)))):
        samedoc(H, got[i], ds, i)
    H.check(all(H.concrete(d.properties()["k"]) == i for i, d in enumerate(got)), "documents read from a truncated file")
    H.observe("n", len(got))


def steps(H, n, cname):
    """what is in the file after every step is what was flushed"""
    ds = makedocs(H, n, 300)
    out = H.io()
    header, ends, st = write(H, out, ds, cname)
    data = out.getvalue()
    for at, done in st:
        got = readall(H, data[:at], "seq")
        H.check(len(got) == done, "documents in the file after a step")
        for i, d in enumerate(got):
            samedoc(H, d, ds, i, False)
    H.check(all(a[0] <= b[0] for a, b in zip(st, st[1:])), "the file shrinks")
    H.check(all((a[0] == b[0]) == (a[1] == b[1]) for a, b in zip(st, st[1:])), "bytes in the file without a flush")


class Failing:
    """An output stream on a disk that becomes full."""

    def __init__(self, H, cap):
        self.H, self.cap, self.out = H, cap, H.io()

    def write(self, data):
        n, room = self.H.length(data), self.cap - self.out.tell()
        if n > room:
            self.out.write(data[:room])
            raise OSError(28, "No space left on device")
        self.out.write(data)
        return n

    def tell(self):
        return self.out.tell()

    def flush(self):
        pass

    def close(self):
        pass


def full(H, n, cname):
    """the disk is full after any number of bytes"""
    col = H.load("docria.collection")
    ds = makedocs(H, n, 300)
    cap = H.int("cap", 64, 20000)
    f = Failing(H, cap)
    per = H.int("per", 1, n)
    w = col.MsgpackDocumentWriter(f, num_docs_per_block=per, codec=codec(H, col, cname))
    ends, cur, failed = [], [], False
    for i, (d, p) in enumerate(ds):
        cur.append(i)
        try:
            w.write(d)
        except OSError:
            failed = True
            break
        if len(cur) == per:
            ends += cur
            cur = []
    if not failed:
        try:
            w.flush()
            ends += cur
        except OSError:
            failed = True
    got = readall(H, f.out.getvalue(), "seq")
    H.check(len(got) == len(ends), "documents read after the disk was full")
    for d, i in zip(got, ends):
        samedoc(H, d, ds, i, False)
    H.observe("n", len(got))


def JOBS(tier):
    q = tier == "quick"
    n = 3 if q else 4
    js = []
    for how in ("seq", "blocks"):
        js.append(("cut", {"n": n, "cname": "h", "how": how, "hi": 20000, "flushes": not q or how == "seq"}))
        js.append(("cut", {"n": n, "cname": "h", "how": how, "hi": 0}))
        js.append(("cut", {"n": 2 if q else 3, "cname": "none", "how": how, "hi": 300, "flushes": False}))
        js.append(("cut", {"n": 2 if q else 3, "cname": "none", "how": how, "hi": 20000, "flushes": False}))
        for c in CODECS[1:]:
            js.append(("cut", {"n": 2 if q else 3, "cname": c, "how": how, "hi": 300, "flushes": not q}))
    for d in (True, False):
        js.append(("wide", {"n": 150 if q else 300, "cname": "none", "default": d}))
    js.append(("steps", {"n": n, "cname": "h"}))
    js.append(("steps", {"n": 2, "cname": "none"}))
    js.append(("full", {"n": n, "cname": "h"}))
    return js
