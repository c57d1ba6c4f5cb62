"""C09: Collection files return every document, in order and by reference."""
from lib import attempt

BOUNDS = {"quick": "3 documents of any encoded size up to 60000 bytes, any documents-per-block setting "
                   "(also 0 and negative), an explicit flush or not after every document, each written decoded or already "
                   "encoded, compressed sizes arbitrary; every codec; 4 reads by reference, by block or sequentially in any order; "
                   "files, in-memory streams and the boundary-framed stream; 130 and 260 documents, of which one has any size, in blocks of "
                   "the default size and 6 others",
          "thorough": "4 documents, 5 reads in any order"}
OUTSIDE = "more documents; that the compression libraries themselves are correct (contract: decompress inverts compress)"
ASSUMPTIONS = ["Reading by reference may move the place where sequential reading goes on; what is read then still has its own "
               "reference."]

CODECS = ["none", "zip", "bzip2", "zipsq", "lzma", "lz4", "zstd", "zstd:high", "zstd:ultra"]


def RESET(H):
    col = H.load("docria.collection")
    if "h" in col._Name2Codec:
        col.unregister_codec("h")


def codec(H, col, name):
    """"h" stands for any compression, "h4" for one with stored blocks of at most 4000 bytes"""
    if name not in ("h", "h4"):
        return col.get_codec(name)
    c, d = H.opaque_codec() if name == "h" else H.opaque_codec(4000)
    col.register_codec("h", c, d)
    return col.get_codec("h")


def makedocs(H, n, hi=20000):
    """(document, expected properties) with sizes chosen by the solver"""
    m = H.load("docria.model")
    out = []
    for i in range(n):
        t = H.text("t%d" % i, 0, hi) if hi else "s%d" % i
        d = m.Document(k=i, s=t)
        d.add_text("main", "ab%d" % i)
        L = d.add_layer("tok", v=m.DataTypes.int32(None), s=m.DataTypes.span("main"))
        L.add(v=100 + i, s=d.texts["main"][1:3])
        out.append((d, {"k": i, "s": t}))
    return out


def write(H, out, ds, cname, per=None, flushes=True, enc=None):
    """-> list of blocks (lists of document numbers)"""
    col, c = H.load("docria.collection"), H.load("docria.codec")
    if per is None:
        per = H.int("per", -1, len(ds) + 1)
    w = col.MsgpackDocumentWriter(out, num_docs_per_block=per, codec=codec(H, col, cname))
    blocks, cur = [], []
    for i, (d, p) in enumerate(ds):
        e = H.bool("enc%d" % i) if enc is None else enc
        w.write(c.MsgpackDocument(d) if e else d)
        cur.append(i)
        if len(cur) == per:
            blocks.append(cur)
            cur = []
        if flushes and H.bool("flush%d" % i):
            w.flush()
            if cur:
                blocks.append(cur)
            cur = []
    w.flush()
    if cur:
        blocks.append(cur)
    return w, blocks


def samedoc(H, md, ds, i, full=True):
    p = ds[i][1]
    H.check(dict(md.properties()) == p, "properties of a document that was read")
    if full:
        d = md.document()
        H.check(dict(d.props) == p and str(d.texts["main"]) == "ab%d" % i, "content of a document that was read")
        ns = [n for n in d["tok"]]
        H.check(len(ns) == 1 and ns[0]["v"] == 100 + i and ns[0]["s"].start == 1 and ns[0]["s"].stop == 3,
                "layer of a document that was read")
    H.check(md.binary() == H.load("docria.codec").MsgpackCodec.encode(ds[i][0]), "bytes of a document that was read")


def layout(H, n, cname, reader):
    """sequential reading, block reading and references for every block layout"""
    col = H.load("docria.collection")
    ds = makedocs(H, n)
    out = H.io()
    w, blocks = write(H, out, ds, cname, enc=None if cname == "h" else False)
    data = out.getvalue()
    w.close()
    if reader == "seq":
        r = col.MsgpackDocumentReader(H.io(data))
        got = [d for d in r]
        H.check(len(got) == n, "number of documents read")
        for i, d in enumerate(got):
            samedoc(H, d, ds, i)
        H.check(next(r, None) is None, "no document after the last one")
        refs = [d.ref for d in got]
        H.check(all(refs[i] != refs[j] for i in range(n) for j in range(i)), "two documents have one reference")
        r2 = col.MsgpackDocumentReader(H.io(data))
        for i in reversed(range(n)):
            samedoc(H, r2.get(refs[i]), ds, i, False)
    else:
        r = col.MsgpackDocumentReader(H.io(data))
        seq = [d.ref for d in col.MsgpackDocumentReader(H.io(data))]
        k = 0
        for j, b in enumerate(r.blocks()):
            H.check(j < len(blocks), "more blocks than written")
            ids = blocks[j]
            got = b.documents()
            H.check(len(got) == len(ids), "number of documents in a block")
            for (pos, d), i in zip(got, ids):
                samedoc(H, d, ds, i, False)
                H.check((b.position, pos) == d.ref, "position given by documents() and reference")
                H.check(d.ref == seq[i], "reference in a block and in sequential reading")
                b.seek(pos)
                H.check(b.tell() == pos, "tell after seek in a block")
                samedoc(H, next(b), ds, i, False)
            b.seek(0)
            again = [d for d in b]
            H.check(len(again) == len(ids) and all(d.ref == seq[i] for d, i in zip(again, ids)), "iterating a block")
            k += 1
        H.check(k == len(blocks), "number of blocks")
    H.observe("blocks", blocks)


def history(H, n, ops, cname):
    """sequential reads, reads by reference, block reads in any order on one reader"""
    col = H.load("docria.collection")
    ds = makedocs(H, n, 0)
    out = H.io()
    w, blocks = write(H, out, ds, cname, per=H.int("per", 1, n), flushes=False, enc=False)
    data = out.getvalue()
    refs = [d.ref for d in col.MsgpackDocumentReader(H.io(data))]
    H.check(len(refs) == n, "number of documents read")
    r = col.MsgpackDocumentReader(H.io(data))
    log = []
    for o in range(ops):
        op = H.choose("op%d" % o, ["next", "get", "block"])
        if op == "next":
            d = next(r, None)
            if d is None:
                log.append(-1)
                continue
        elif op == "get":
            i = H.concrete(H.int("i%d" % o, 0, n - 1))
            d = r.get(refs[i])
            samedoc(H, d, ds, i, False)
            H.check(d.ref == refs[i], "reference of a document read by reference")
        else:
            b = r.readblock()
            if b is None:
                log.append(-2)
                continue
            d = next(b)
        k = H.concrete(d.properties()["k"])
        samedoc(H, d, ds, k, False)
        H.check(d.ref == refs[k], "reference of a document read after other reads")
        samedoc(H, col.MsgpackDocumentReader(H.io(data)).get(d.ref), ds, k, False)
        log.append(k)
    H.observe("log", log)


def sequential(H, n, cname):
    """sequential reading goes on where it was when only blocks already left behind or the own one are revisited at its place"""
    col = H.load("docria.collection")
    ds = makedocs(H, n, 300)
    out = H.io()
    write(H, out, ds, cname, flushes=False, enc=False)
    r = col.MsgpackDocumentReader(H.io(out.getvalue()))
    for i in range(n):
        d = next(r)
        samedoc(H, d, ds, i, False)
        if H.bool("again%d" % i):
            samedoc(H, r.get(d.ref), ds, i, False)     # the reader stands after this document before and after
    H.check(next(r, None) is None, "no document after the last one")


def files(H, n, how):
    """paths, file objects, the boundary stream and the other entry points"""
    col = H.load("docria.collection")
    ds = makedocs(H, n, 9000)
    path = H.tmpdir() + "/x.docria"
    if how == "path":
        w, blocks = write(H, path, ds, "h")
        w.close()
        with col.MsgpackDocumentReader(path) as r:
            got = [d for d in r]
    elif how == "context":
        with col.MsgpackDocumentWriter(path, num_docs_per_block=2, codec=codec(H, col, "h")) as w:
            for d, p in ds:
                w.write(d)
        r = col.MsgpackDocumentIO.read(path)
        got = [d for d in r]
        r.close()
    elif how == "deprecated":
        with col.DocumentIO.write(path, num_docs_per_block=H.int("per", 1, n), codec=codec(H, col, "h")) as w:
            for d, p in ds:
                w.write(d)
        with col.DocumentIO.read(path) as r:
            docs = [d for d in r]
        H.check(len(docs) == n and all(dict(d.props) == p for d, (_, p) in zip(docs, ds)), "decoded documents")
        with col.MsgpackDocumentReader(path) as r:
            got = [d for d in r]
    elif how == "file":
        with open(path, "wb") as f:
            w, blocks = write(H, f, ds, "h", enc=False)
        with open(path, "rb") as f:
            got = [d for d in col.MsgpackDocumentIO.readfile(f)]
    else:
        out = H.io()
        w, blocks = write(H, col._BoundaryWriter(out, boundary=12), ds, "h4", flushes=False, enc=False)
        r = col.MsgpackDocumentReader(col._BoundaryReader(H.io(out.getvalue())))
        got = [d for d in r]
    H.check(len(got) == n, "number of documents read")
    for i, d in enumerate(got):
        samedoc(H, d, ds, i)
    if how == "boundary":
        r = col.MsgpackDocumentReader(col._BoundaryReader(H.io(out.getvalue())))
        for i in reversed(range(n)):
            samedoc(H, r.get(got[i].ref), ds, i, False)
        return
    with col.MsgpackDocumentReader(path) as r:
        for i in reversed(range(n)):
            samedoc(H, r.get(got[i].ref), ds, i, False)


def wide(H, n, cname, default):
    """many documents, of which one has any size, in blocks of the default size or any other"""
    col = H.load("docria.collection")
    at = H.choose("at", sorted({0, n // 2, min(n - 1, 127), min(n - 1, 128), n - 1}))
    m = H.load("docria.model")
    ds = []
    for i in range(n):
        t = H.text("t", 0, 30000) if i == at else "s%d" % i
        d = m.Document(k=i, s=t)
        d.add_text("main", "ab%d" % i)
        d.add_layer("tok", v=m.DataTypes.int32(None), s=m.DataTypes.span("main")).add(v=100 + i, s=d.texts["main"][1:3])
        ds.append((d, {"k": i, "s": t}))
    out = H.io()
    kw = {} if default else {"num_docs_per_block": H.choose("per", [100, n] if cname == "h" else [7, n - 1] if cname == "zip" else [1, 30])}
    w = col.MsgpackDocumentWriter(out, codec=codec(H, col, cname), **kw)
    for d, p in ds:
        w.write(d)
    w.flush()
    data = out.getvalue()
    r = col.MsgpackDocumentReader(H.io(data))
    got = [d for d in r]
    H.check(len(got) == n, "number of documents read")
    for i, d in enumerate(got):
        samedoc(H, d, ds, i, i == at or i % 50 == 0)
    H.check(len({d.ref for d in got}) == n, "two documents have one reference")
    r2 = col.MsgpackDocumentReader(H.io(data))
    for i in (n - 1, 0, at, n // 3, max(at - 1, 0)):
        samedoc(H, r2.get(got[i].ref), ds, i, False)
    r3 = col.MsgpackDocumentReader(H.io(data))
    sizes = [len(b.documents()) for b in r3.blocks()]
    per = kw.get("num_docs_per_block", 128)
    H.check(sizes == [per] * (n // per) + ([n % per] if n % per else []), "documents per block")


def copy(H, n):
    """documents read are written to another collection as they are"""
    col = H.load("docria.collection")
    ds = makedocs(H, n)
    out = H.io()
    write(H, out, ds, "h", flushes=False, enc=False)
    out2 = H.io()
    w = col.MsgpackDocumentWriter(out2, num_docs_per_block=H.int("per2", 1, n), codec=col.get_codec("none"))
    for d in col.MsgpackDocumentReader(H.io(out.getvalue())):
        if H.bool("touch%d" % H.concrete(d.properties("k")["k"])):
            d.document()
        w.write(d)
    w.flush()
    got = [d for d in col.MsgpackDocumentReader(H.io(out2.getvalue()))]
    H.check(len(got) == n, "number of documents read")
    for i, d in enumerate(got):
        samedoc(H, d, ds, i, False)


def refused(H):
    col = H.load("docria.collection")
    out = H.io()
    w = col.MsgpackDocumentWriter(out, num_docs_per_block=1, codec=codec(H, col, "h"))
    for x in (b"DM_1", None, "x", {"a": 1}):
        H.check(not attempt(lambda: w.write(x))[0], "something that is no document was written")
    ds = makedocs(H, 1)
    w.write(ds[0][0])
    got = [d for d in col.MsgpackDocumentReader(H.io(out.getvalue()))]
    H.check(len(got) == 1, "a refused document left traces in the file")
    samedoc(H, got[0], ds, 0)
    H.check(not attempt(lambda: col.MsgpackDocumentReader(H.io(b"Dmf2" + b"\x00" * 20)))[0], "a wrong header was accepted")


def JOBS(tier):
    q = tier == "quick"
    n = 3 if q else 4
    js = []
    for reader in ("seq", "blocks"):
        js.append(("layout", {"n": n, "cname": "h", "reader": reader}))
        for c in CODECS:
            js.append(("layout", {"n": 2 if q else 3, "cname": c, "reader": reader}))
    js.append(("history", {"n": 3, "ops": 4 if q else 5, "cname": "h"}))
    js.append(("history", {"n": 2, "ops": 2 if q else 4, "cname": "zip"}))
    js.append(("sequential", {"n": n, "cname": "h"}))
    for how in ("path", "context", "deprecated", "file", "boundary"):
        js.append(("files", {"n": 2 if q else 3, "how": how}))
    for d in (True, False):
        js += [("wide", {"n": n, "cname": c, "default": d}) for n, c in (((260, "h"), (130, "zip"), (130, "none")) if q else ((260, "h"), (520, "none")))]
    js.append(("copy", {"n": 2 if q else 3}))
    js.append(("refused",))
    return js
