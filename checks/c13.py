"""C13: Property index search finds exactly the matching documents."""
import c09
from lib import attempt
from c09 import codec

BOUNDS = {"quick": "files of 3 documents in any block layout, each with or without either of two indexed properties of any integer "
                   "value (or strings and mixed values from a small alphabet), a condition on either or both with any value; "
                   "two files of 2 documents; directories of 3 files of 1 document, listed and finished by the worker processes in any order, with files of other names; lazy and decoded; saved and loaded indices; paths relative to another directory than the working directory; a file of 140 documents, one with any value",
          "thorough": "4 documents, files of 3"}
OUTSIDE = "how the operating system runs the processes that index a directory; unhashable property values; more documents and properties; a collection that was moved since it was indexed"
ASSUMPTIONS = ["Python equality decides whether a property has a value (1 == 1.0 == True)."]


def RESET(H):
    c09.RESET(H)


def value(H, kind, nm):
    if kind == "int":
        return H.int(nm, -10 ** 6, 10 ** 6)
    if kind == "str":
        return H.chars(nm, 1, 97, 122)
    return H.choose(nm, [None, 1, "1", True, 2.5, "", 0])


def makedocs(H, n, kind, tag="", fields=("a", "b")):
    m = H.load("docria.model")
    out = []
    for i in range(n):
        p = {"id": tag + str(i)}
        for f in fields if kind != "mixed" else ("a",):
            if H.bool("%s%s%d?" % (tag, f, i)):
                p[f] = value(H, kind, "%s%s%d" % (tag, f, i))
        d = m.Document(**p)
        d.add_text("main", "text " + tag + str(i))
        L = d.add_layer("tok", s=m.DataTypes.span("main"))
        L.add(s=d.texts["main"][0:4])
        out.append((d, p))
    return out


def writefile(H, path, ds, per=None):
    col = H.load("docria.collection")
    c = col.get_codec("h", no_except=True) or codec(H, col, "h")
    w = col.MsgpackDocumentWriter(path, num_docs_per_block=H.int("per", 1, len(ds)) if per is None else per, codec=c)
    for d, p in ds:
        w.write(d)
    w.close()


def compare(H, got, ds, conds, lazy, anyorder=False):
    want = [p for d, p in ds if all(k in p and p[k] == v for k, v in conds.items())]
    H.check(len(got) == len(want), "number of documents found")
    ids = []
    for g in got:
        p = dict(g.properties() if lazy else g.props)
        ids.append(p["id"])
        H.check(any(p == w for w in want), "a document found is not one that matches")
        d = g.document() if lazy else g
        H.check(str(d.texts["main"]) == "text " + p["id"] and str(d["tok"].first()["s"]) == "text", "content of a document found")
        H.check(dict(d.props) == p, "properties of a document found")
    if anyorder:
        H.check(sorted(ids) == sorted(w["id"] for w in want), "each matching document once")
    else:
        H.check(ids == [w["id"] for w in want], "each matching document once, in file order")


def conditions(H, kind, which):
    c = {}
    for k in which:
        c[k] = value(H, kind, "q" + k)
    return c


def search(H, n, kind, which, lazy, pairs=False):
    col = H.load("docria.collection")
    ds = makedocs(H, n, kind)
    path = H.tmpdir() + "/a.docria"
    writefile(H, path, ds)
    ix = col.build_msgpack_fileindex(path, "a", "b")
    conds = conditions(H, kind, which)
    got = [d for d in ix.search([(k, v) for k, v in conds.items()] if pairs else conds, lazy=lazy)]
    compare(H, got, ds, conds, lazy)
    H.observe("n", len(got))
    if lazy:
        refs = [d.ref for d in got]
        with col.MsgpackDocumentIO.read(path) as r:
            allrefs = {dict(d.properties())["id"]: d.ref for d in r}
        H.check(all(d.ref == allrefs[d.properties()["id"]] for d in got), "reference of a document found")
    # the index can be asked again, also while a search is under way
    it = ix.search(conds, lazy=lazy)
    first = next(it, None)
    again = [d for d in ix.search(conds, lazy=lazy)]
    compare(H, again, ds, conds, lazy)
    compare(H, ([first] if first is not None else []) + [d for d in it], ds, conds, lazy)


def unknown(H, n, lazy):
    """properties that are not indexed, values that do not occur, no condition"""
    col = H.load("docria.collection")
    ds = makedocs(H, n, "int")
    path = H.tmpdir() + "/a.docria"
    writefile(H, path, ds)
    ix = col.build_msgpack_fileindex(path, "a")
    for conds in ({"zzz": 1}, {"a": 2 * 10 ** 6}, {"a": "x"}, {"a": 2 * 10 ** 6, "zzz": 1}):
        H.check(not [d for d in ix.search(conds, lazy=lazy)], "something found for an unknown property or value")
    v = H.int("q", -10 ** 6, 10 ** 6)
    H.check(not [d for d in ix.search({"a": v, "zzz": 1}, lazy=lazy)], "something found for an unknown property")
    H.check(not [d for d in ix.search({"zzz": 1, "a": v}, lazy=lazy)], "something found for an unknown property")


def several(H, n, which, lazy, saved):
    col = H.load("docria.collection")
    a, b = makedocs(H, n, "int", "x"), makedocs(H, n, "int", "y")
    ix = col.DocumentIndex()
    for k, ds in enumerate((a, b)):
        path = H.tmpdir() + "/f%d.docria" % k
        writefile(H, path, ds, per=1 + k)
        ix.add(col.build_msgpack_fileindex(path, "a", "b"))
    if saved:
        ix.save(H.tmpdir() + "/index")
        ix = col.DocumentIndex.load(H.tmpdir() + "/index")
    conds = conditions(H, "int", which)
    got = [d for d in ix.search(conds, lazy=lazy)]
    compare(H, got, a + b, conds, lazy, True)
    H.observe("n", len(got))


NAMES = ["f0.docria", "f1.docria", "f0.docria.xz", "f1.docria.bz2", "f1.docria.lz4", "f1.docria.z", "f2.docria", "f0.docria.gz",
         "f1.txt", "f1.docria.xz.part", "docria", "f1.docria2"]


def directory(H, n, files, lazy, odd):
    """a directory indexed by worker processes that finish in any order, its files listed in any order"""
    col = H.load("docria.collection")
    base = H.tmpdir()
    inside = []
    names = ["f0.docria", H.choose("name", NAMES[1:])] if odd else ["f%d.docria" % k for k in range(files)]
    for k, nm in enumerate(names):
        ds = makedocs(H, n, "int", "xyz"[k], ("a",) if odd or files > 2 else ("a", "b"))
        writefile(H, base + "/" + nm, ds, per=1 + k)
        if k == 0 or nm in NAMES[:7]:
            inside.append(ds)
    H.schedule("sched")
    workers = None if odd or files > 2 else H.choose("workers", [None, 1, 2])
    props = ("a",) if odd or files > 2 or H.bool("one") else ("a", "b")
    ix = col.build_msgpack_directory_fileindex(base, *props, num_workers=workers)
    H.check(len(ix.index) == len(inside), "files in the index")
    which = "a" if len(props) == 1 else "b"
    conds = conditions(H, "int", [which])
    want = [d for ds in inside for d in ds]
    got = [d for d in ix.search(conds, lazy=lazy)]
    compare(H, got, want, conds, lazy, True)
    if lazy:
        # within a file in the order of the file
        for c in "xyz":
            ids = [dict(g.properties())["id"] for g in got]
            mine = [i for i in ids if i[0] == c]
            H.check(mine == sorted(mine), "order within a file")
    if which == "a":
        H.check(not [d for d in ix.search({"b": H.int("qb2", -9, 9)})], "found by a property that is not indexed")
    H.observe("n", len(got))


def wide(H, n, lazy, saved):
    """many documents in one file, one of them with any value"""
    col, m = H.load("docria.collection"), H.load("docria.model")
    at = H.choose("at", [0, min(n - 1, 128)])
    ds = []
    for i in range(n):
        p = {"id": str(i)}
        if i == at:
            p["a"] = H.int("a", -10, 10)
        elif i % 3:
            p["a"] = i * 7 % 5
        if i % 4 == 1:
            p["b"] = i % 2 == 0 or "x"
        d = m.Document(**p)
        d.add_text("main", "text " + str(i))
        d.add_layer("tok", s=m.DataTypes.span("main")).add(s=d.texts["main"][0:4])
        ds.append((d, p))
    path = H.tmpdir() + "/a.docria"
    writefile(H, path, ds, per=H.choose("per", [50, n]))
    ix = col.build_msgpack_fileindex(path, "a", "b")
    if saved:
        x = col.DocumentIndex()
        x.add(ix)
        x.save(H.tmpdir() + "/index")
        ix = col.DocumentIndex.load(H.tmpdir() + "/index")
    conds = {"a": H.int("qa", -1, 5)}
    if H.choose("two", [False, True]):
        conds["b"] = "x"
    got = [d for d in ix.search(conds, lazy=lazy)]
    compare(H, got, ds, conds, lazy)
    H.observe("n", len(got))


def based(H, n, saved, built):
    """an index that keeps the paths of its files relative to a directory other than the working directory"""
    col = H.load("docria.collection")
    base = H.tmpdir()
    rel = H.choose("base", [".", ".."])
    a, b = makedocs(H, n, "int", "x", ("a",)), makedocs(H, n, "int", "y", ("a",))
    for k, ds in enumerate((a, b)):
        writefile(H, base + "/f%d.docria" % k, ds, per=1 + k)
    if built:
        H.schedule("sched")
        ix = col.build_msgpack_directory_fileindex(base, "a", basepath=base + "/" + rel, num_workers=1)
    else:
        ix = col.DocumentIndex(basepath=base + "/" + rel)
        for k in (0, 1):
            ix.add(col.build_msgpack_fileindex(base + "/f%d.docria" % k, "a"))
    if saved:
        ix.save(base + "/index")
        ix = col.DocumentIndex.load(base + "/index")
    conds = conditions(H, "int", ["a"])
    for lazy in (True, False):
        compare(H, [d for d in ix.search(conds, lazy=lazy)], a + b, conds, lazy, True)
    H.check(sorted(ix.index) == [("f%d.docria" if rel == "." else base.rstrip("/").split("/")[-1] + "/f%d.docria") % k for k in (0, 1)], "paths kept in the index")


def empty(H):
    col = H.load("docria.collection")
    path = H.tmpdir() + "/e.docria"
    writefile(H, path, [], per=3)
    ix = col.build_msgpack_fileindex(path, "a")
    H.check(not [d for d in ix.search({"a": 1})], "something found in an empty file")
    H.check(not [d for d in col.DocumentIndex().search({"a": 1})], "something found in an empty index")


def JOBS(tier):
    q = tier == "quick"
    js = []
    n = 3 if q else 4
    for lazy in (False, True):
        for which in (["a"], ["a", "b"]):
            js.append(("search", {"n": n if which == ["a"] else n - 1, "kind": "int", "which": which, "lazy": lazy, "pairs": lazy}))
        js.append(("search", {"n": n - 1, "kind": "str", "which": ["b", "a"], "lazy": lazy}))
        js.append(("search", {"n": 2, "kind": "mixed", "which": ["a"], "lazy": lazy}))
        js.append(("unknown", {"n": 2, "lazy": lazy}))
        for saved in (False, True):
            js.append(("several", {"n": 1 if q else 2, "which": ["a"], "lazy": lazy, "saved": saved}))
        if not q:
            js.append(("search", {"n": n, "kind": "int", "which": ["a", "b"], "lazy": lazy, "pairs": lazy}))
        js.append(("directory", {"n": 1, "files": 2, "lazy": lazy, "odd": False}))
        js.append(("directory", {"n": 1, "files": 3, "lazy": lazy, "odd": False}))
        js.append(("directory", {"n": 1, "files": 2, "lazy": lazy, "odd": True}))
        if not q:
            js.append(("directory", {"n": 2, "files": 2, "lazy": lazy, "odd": False}))
    js += [("wide", {"n": 140 if q else 300, "lazy": lazy, "saved": lazy}) for lazy in (False, True)]
    for saved, built in ((False, False), (True, False), (True, True)):
        js.append(("based", {"n": 1 if q else 2, "saved": saved, "built": built}))
    js.append(("empty",))
    return js
