"""C23: Tar collections return every document in order."""
import c09
from c09 import makedocs, samedoc
from lib import attempt

BOUNDS = {"quick": "up to 4 documents of any encoded size up to 60000 bytes, each decoded or already encoded, in archives of every "
                   "compression, with or without a root directory and a naming pattern of their own, with directories, links and "
                   "devices anywhere in between; refused objects in between; 140 documents of which one has any size",
          "thorough": "up to 6 documents"}
OUTSIDE = "the tar format and the compression libraries (contract: an archive returns its members in order); reading on after the end; appending to archives"
ASSUMPTIONS = []


def RESET(H):
    c09.RESET(H)


def roundtrip(H, n, comp, root, fmt, between=False, refuse=False, stream=True):
    col, c = H.load("docria.collection"), H.load("docria.codec")
    tf = H.tarfile()
    path = H.tmpdir() + "/d.tar"
    ds = makedocs(H, n)
    kw = {}
    if comp != "gz" or not stream:
        kw["mode"] = "w%s%s" % ("|" if stream else ":", comp)
    if root is not None:
        kw["rootdir"] = root
    if fmt is not None:
        kw["docformat"] = fmt
    H.load("docria.collection")
    w = col.TarMsgpackWriter(path, **kw)
    for i, (d, p) in enumerate(ds):
        if between:
            extra(H, tf, w.tarwriter, i)
        if refuse and H.bool("bad%d" % i):
            ok, r = attempt(lambda: w.write("no document"))
            H.check(not ok and isinstance(r, ValueError), "an object that is no document was written")
        how = "decoded" if between and i else H.choose("enc%d" % i, ["decoded", "encoded", "bytes"])
        w.write(d if how == "decoded" else c.MsgpackDocument(d) if how == "encoded"
                else c.MsgpackDocument(c.MsgpackCodec.encode(d)))
    if between:
        extra(H, tf, w.tarwriter, n)
    w.close()
    rkw = {} if comp == "gz" and stream else {"mode": "r%s%s" % ("|" if stream else ":", comp)}
    with col.TarMsgpackReader(path, **rkw) as r:
        got = []
        for i, md in enumerate(r):
            H.check(i < n, "more documents than written")
            samedoc(H, md, ds, i)
            got.append(md)
        H.check(len(got) == n, "number of documents read")
        for i, md in enumerate(got):
            samedoc(H, md, ds, i)
    # the names of the members: as documented, in order
    with tf.open(path, "r:*") as t:
        names = [m.name for m in t.getmembers() if m.isfile()]
    want = [((root + "/") if root is not None else "") + (fmt or "doc%05d.msgpack") % i for i in range(n)]
    H.check(names == want, "names of the documents in the archive")
    H.observe("n", len(got))


def extra(H, tf, tar, i):
    k = H.choose("x%d" % i, ["none", "dir", "link", "hard", "device"])
    if k == "none":
        return
    ti = tf.TarInfo("extra%d" % i)
    ti.type = {"dir": tf.DIRTYPE, "link": tf.SYMTYPE, "hard": tf.LNKTYPE, "device": tf.FIFOTYPE}[k]
    if k in ("link", "hard"):
        ti.linkname = "doc00000.msgpack"
    tar.addfile(ti)


def copy(H, n):
    """a collection is copied by writing the documents that were read"""
    col = H.load("docria.collection")
    a, b = H.tmpdir() + "/a.tar", H.tmpdir() + "/b.docria"
    ds = makedocs(H, n)
    with col.TarMsgpackWriter(a) as w:
        for d, p in ds:
            w.write(d)
    with col.DocumentIO.write(b, codec=col.get_codec("zip")) as w:
        for md in col.TarMsgpackReader(a):
            w.write(md)
    with col.MsgpackDocumentIO.read(b) as r:
        got = [md for md in r]
        H.check(len(got) == n, "number of documents copied")
        for i, md in enumerate(got):
            samedoc(H, md, ds, i)
    c = H.tmpdir() + "/c.tar"
    with col.TarMsgpackWriter(c, mode="w|") as w:
        with col.MsgpackDocumentIO.read(b) as r:
            for md in r:
                w.write(md)
    k = 0
    for md in col.TarMsgpackReader(c, mode="r|"):
        samedoc(H, md, ds, k)
        k += 1
    H.check(k == n, "number of documents copied back")


def wide(H, n):
    """many documents, of which one has any size, decoded or encoded"""
    col, c, m = H.load("docria.collection"), H.load("docria.codec"), H.load("docria.model")
    at = H.choose("at", sorted({0, n // 2, n - 1}))
    path = H.tmpdir() + "/d.tar"
    ds = []
    for i in range(n):
        t = H.text("t", 0, 20000) if i == at else "s%d" % i
        d = m.Document(k=i, s=t)
        d.add_text("main", "ab%d" % i)
        d.add_layer("tok", v=m.DataTypes.int32(None), s=m.DataTypes.span("main")).add(v=100 + i, s=d.texts["main"][1:3])
        ds.append((d, {"k": i, "s": t}))
    enc = H.choose("enc", ["decoded", "encoded", "mixed"])
    kw = {"docformat": "d%02d"} if H.choose("named", [False, True]) else {}
    with col.TarMsgpackWriter(path, **kw) as w:
        for i, (d, p) in enumerate(ds):
            w.write(c.MsgpackDocument(d) if enc == "encoded" or enc == "mixed" and i % 2 else d)
    with col.TarMsgpackReader(path) as r:
        got = [md for md in r]
    H.check(len(got) == n, "number of documents read")
    for i, md in enumerate(got):
        samedoc(H, md, ds, i, i == at)


def missing(H):
    col = H.load("docria.collection")
    H.check(not attempt(lambda: col.TarMsgpackReader(H.tmpdir() + "/none.tar"))[0], "a missing archive was opened")


def JOBS(tier):
    q = tier == "quick"
    js = [("missing",)]
    for n in range(0, 5 if q else 7):
        js.append(("roundtrip", {"n": n, "comp": "gz", "root": None, "fmt": None}))
        if n < 5:
            js.append(("copy", {"n": n}))
    for comp in ("", "gz", "bz2", "xz"):
        for stream in (True, False):
            js.append(("roundtrip", {"n": 2, "comp": comp, "root": "data" if stream else None, "fmt": None, "stream": stream}))
    js.append(("roundtrip", {"n": 3, "comp": "gz", "root": "a/b", "fmt": "x%d.bin"}))
    js.append(("roundtrip", {"n": 2, "comp": "gz", "root": "data", "fmt": None, "between": True}))
    js.append(("roundtrip", {"n": 1 if q else 2, "comp": "", "root": None, "fmt": "%03d", "between": True}))
    js.append(("roundtrip", {"n": 2, "comp": "gz", "root": None, "fmt": None, "refuse": True}))
    js.append(("wide", {"n": 140}))
    return js
