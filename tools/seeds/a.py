SEEDS = []
def S(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

S("C01-empty-span", "C01", [("codec.py", """        if v is None:
            l.append(None)
            l.append(None)""", """        if not v:
            l.append(None)
            l.append(None)""")],
  "a span field holding an empty span (start == stop)",
  "a node whose span is empty loses the field when the document is encoded and decoded",
"""
from docria import Document, DataTypes as T
from docria.codec import MsgpackCodec
d = Document(); d.maintext = "abcdef"
l = d.add_layer("t", text=T.span())
l.add(text=d.maintext[2:4]); l.add(text=d.maintext[3:3])
e = MsgpackCodec.decode(MsgpackCodec.encode(d))
n = list(e["t"])[1]
assert n.get("text") is not None and (n["text"].start, n["text"].stop) == (3, 3), n.get("text")
""")

S("C01-nodespan-width", "C01", [("codec.py",
  "DataTypeEnum.NODEREF_SPAN: lambda l, v: l.append(None if v is None else [v.left.i, v.right.i - v.left.i]),",
  "DataTypeEnum.NODEREF_SPAN: lambda l, v: l.append(None if v is None else [v.left.i, max(1, len(v)) - 1]),"),
  ("model.py", "        return filter(None.__ne__, map(self._nodes.__getitem__, range(left_most.i, right_most.i + 1)))",
   "        return filter(None, map(self._nodes.__getitem__, range(left_most.i, right_most.i + 1)))")],
  "a node span whose layer holds nodes without any set field (a Node is an empty dict, hence falsy)",
  "node spans over nodes without fields come back shorter after encoding",
"""
from docria import Document, DataTypes as T, NodeSpan
from docria.codec import MsgpackCodec
d = Document()
l = d.add_layer("t", x=T.string(default=None))
ns = [l.add(x="a"), l.add(), l.add(x="b")]
s = d.add_layer("s", sp=T.nodespan("t"))
s.add(sp=NodeSpan(ns[0], ns[2]))
e = MsgpackCodec.decode(MsgpackCodec.encode(d))
sp = s = list(e["s"])[0]["sp"]
assert (sp.left.i, sp.right.i) == (0, 2), (sp.left.i, sp.right.i)
""")

S("C03-i32-upper", "C03", [("model.py", "        return isinstance(value, int) and (-0x80000000 <= value <= 0x7FFFFFFF)",
   "        return isinstance(value, int) and (-0x80000000 <= value <= 0x80000000)")],
  "the single value 2147483648 in an int32 field",
  "an int32 field accepts 2**31",
"""
from docria import Document, DataTypes as T
from docria.codec import MsgpackCodec
d = Document(); l = d.add_layer("t", x=T.int32())
l.add(x=2**31 - 1); l.add(x=-2**31)
MsgpackCodec.encode(d)
for bad in (2**31, -2**31 - 1):
    ok = False
    try:
        l.add(x=bad); MsgpackCodec.encode(d)
    except Exception:
        ok = True
    assert ok, bad
""")

S("C03-nodespan-right", "C03", [("model.py", """               value.left.collection.name == self.options["layer"] and \\
               value.right.collection.name == self.options["layer"] and \\
               value.left.i <= value.right.i""", """               value.left.collection.name == self.options["layer"] and \\
               value.left.i <= value.right.i""")],
  "a node span whose right end was removed from its layer and added to another layer after the span was made",
  "a node span ending in a node of another layer is accepted and stored as if it referred to the declared layer",
"""
from docria import Document, DataTypes as T, NodeSpan
from docria.codec import MsgpackCodec
d = Document()
a = d.add_layer("a", x=T.int32()); b = d.add_layer("b", x=T.int32())
n = [a.add(x=i) for i in range(3)]
s = d.add_layer("s", sp=T.nodespan("a"))
sp = NodeSpan(n[0], n[2]); s.add(sp=sp)
MsgpackCodec.encode(d)
b.add(x=0); b.add(x=1)
a.remove(n[2]); b.add(n[2])
ok = False
try:
    MsgpackCodec.encode(d)
except Exception:
    ok = True
assert ok
""")

S("C03-ref-missing-layer", "C03", [("model.py",
  "                if fieldtype.typename in {DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN}:",
  "                if fieldtype.typename in {DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY}:")],
  "a node span field declared over a layer the document does not have",
  "a document whose schema refers to a missing layer is accepted for encoding",
"""
from docria import Document, DataTypes as T
from docria.codec import MsgpackCodec
d = Document(); l = d.add_layer("t", sp=T.nodespan("nowhere"))
l.add()
ok = False
try:
    MsgpackCodec.encode(d)
except Exception:
    ok = True
assert ok
""")

S("C04-compact-id", "C04", [("model.py", """                self._nodes[i] = self._nodes[k]
                self._nodes[i]._id = i
                i += 1
""", """                self._nodes[i] = self._nodes[k]
                i += 1
"""), ("model.py", """            for idref, n in zip(range(len(v)), v):
                n._id = idref

            fieldtypes = v.schema.fields
            fieldkeys = set(fieldtypes.keys())

            v.compact()
""", """            v.compact()
            for idref, n in zip(range(len(v)), v):
                n._id = idref

            fieldtypes = v.schema.fields
            fieldkeys = set(fieldtypes.keys())

""")],
  "a layer of more than 16 nodes losing over a quarter of them, then a removal of a node behind the gap",
  "indices of nodes go stale after automatic compaction and the wrong node is removed",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", x=T.int32())
n = [l.add(x=i) for i in range(20)]
l.remove(n[:6])
assert [m["x"] for m in l] == list(range(6, 20))
for k, m in enumerate(l):
    assert m.i == k and l[m.i] is m, (m.i, k)
l.remove(n[7])
assert [m["x"] for m in l] == [6] + list(range(8, 20)), [m["x"] for m in l]
""")

S("C05-compact-falsy", "C05", [("model.py", """        for k in range(0, len(self._nodes)):
            if self._nodes[k] is not None:
                self._nodes[i] = self._nodes[k]""", """        for k in range(0, len(self._nodes)):
            if self._nodes[k]:
                self._nodes[i] = self._nodes[k]""")],
  "a layer with a gap and nodes that have no field set, compacted by sort or encoding",
  "nodes without fields vanish from the layer when it is compacted",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", x=T.string(default=None))
a, b, c = l.add(x="a"), l.add(), l.add(x="c")
z = l.add(x="z")
l.remove(z); l.compact()
assert list(l) == [a, b, c] and a.right is b and b.right is c and c.left is b, list(l)
""")

S("C05-left-zero", "C05", [("model.py", "        for i in range(n.i - 1, -1, -1):\n", "        for i in range(n.i - 1, 0, -1):\n"),
   ],
  "asking for the left neighbour when only the first slot of the layer remains to the left",
  "the first node is never found as a left neighbour",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", x=T.int32())
n = [l.add(x=i) for i in range(3)]
l.remove(n[1])
assert n[2].left is n[0] and n[0].left is None
""")

S("C06-span-tuple", "C06", [("model.py", "            start, stop, step = indx.indices(len(self))\n            return self.text[start + self.start:stop + self.start]",
   "            start, stop, step = indx.indices(len(self))\n            return self.text[start + self.start:max(start, min(stop, self.stop)) + self.start]")],
  "a nested span (start > 0) sliced with bounds", "x", """
""")
SEEDS.pop()

S("C06-neg-clamp", "C06", [("model.py", "            start, stop, _ = indx.indices(len(self.text))\n\n            if stop < start:",
   "            start, stop, _ = indx.indices(len(self.text))\n            if indx.stop == -1:\n                stop = len(self.text)\n\n            if stop < start:")],
  "a text slice whose stop is exactly -1", "text[a:-1] gives a span to the end of the text instead of excluding the last character",
"""
from docria import Document
d = Document(); d.maintext = "abcdef"
for a in (None, 0, 1, -3):
    for b in (None, 0 if a in (None, 0) else 5, -1, -2, 5, 6, 9):
        assert str(d.maintext[a:b]) == "abcdef"[a:b], (a, b)
""")

S("C07-intersect-touch", "C07", [("model.py", """            start, stop = span
            return stop > self.start and start < self.stop""", """            start, stop = span
            return stop >= self.start and start < self.stop""")],
  "a range given as a tuple that ends exactly where the span starts",
  "a range merely touching the span counts as intersecting it",
"""
from docria import Document
d = Document(); d.maintext = "abcdefgh"
s = d.maintext[2:4]
for a in range(9):
    for b in range(a, 9):
        want = a < 4 and b > 2
        assert s.intersected_by((a, b)) == want == s.intersected_by(d.maintext[a:b]), (a, b)
""")

S("C08-query-order", "C08", [("model.py", "    def update(self):\n        self.result = [n for n in self.collection if self.predicate(n)]",
   "    def update(self):\n        self.result = [n for n in self.result if n.collection is not None] + \\\n                      [n for n in self.collection if self.predicate(n) and n not in self.result]")],
  "update() of a query after nodes changed so that they no longer match, or that match now and come before earlier hits",
  "an updated query keeps nodes that no longer match and loses layer order",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", x=T.int32())
n = [l.add(x=i) for i in range(4)]
q = l[l["x"] >= 2]
n[0]["x"] = 5
n[3]["x"] = 0
q.update()
assert [m.i for m in q] == [0, 2], [m.i for m in q]
""")

S("C08-or-args", "C08", [("query.py", "        return self.lft(*args, **kwargs) or self.rgt(*args, **kwargs)",
   "        return self.lft(*args, **kwargs) != self.rgt(*args, **kwargs)")],
  "an 'or' of two predicates that both hold for one node", "a node matching both sides of | is left out",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", x=T.int32())
for i in range(4): l.add(x=i)
assert [m["x"] for m in l[(l["x"] >= 1) | (l["x"] <= 2)]] == [0, 1, 2, 3]
""")

S("C09-flush-count", "C09", [("collection.py", """            self.currentblock = BytesIO()
            self.current_block_count = 0

    def close""", """            self.currentblock = BytesIO()
            self.current_block_count -= self.num_docs_per_block

    def close""")],
  "an explicit flush of a partly filled block followed by more documents",
  "after an early flush the block count is off: the final block may never be written",
"""
import io
from docria import Document
from docria.collection import MsgpackDocumentWriter, MsgpackDocumentReader, get_codec
class B(io.BytesIO):
    def close(self): pass
for k in range(1, 5):
    b = B()
    w = MsgpackDocumentWriter(b, num_docs_per_block=3, codec=get_codec("none"))
    w.write(Document(i=0)); w.flush()
    for i in range(1, k): w.write(Document(i=i))
    w.close()
    got = [x.properties()["i"] for x in MsgpackDocumentReader(io.BytesIO(b.getvalue()))]
    assert got == list(range(k)), (k, got)
""")

S("C09-get-cached", "C09", [("collection.py", "        if self.block is None or self.block.position != ref[0]:", "        if self.block is None:")],
  "fetching by reference from one block while another block is the current one",
  "get returns a document of the wrong block",
"""
import io
from docria import Document
from docria.collection import MsgpackDocumentWriter, MsgpackDocumentReader, get_codec
class B(io.BytesIO):
    def close(self): pass
b = B()
w = MsgpackDocumentWriter(b, num_docs_per_block=2, codec=get_codec("none"))
for i in range(6): w.write(Document(i=i))
w.close()
refs = [x.ref for x in MsgpackDocumentReader(io.BytesIO(b.getvalue()))]
r = MsgpackDocumentReader(io.BytesIO(b.getvalue()))
for i in (0, 5, 2, 3, 1): assert r.get(refs[i]).properties()["i"] == i, i
""")

S("C09-block-seek", "C09", [("collection.py", """        pos = self._data.seek(position)
        self._dataread = position
        self._unpacker = Unpacker(self._data, raw=False)
        return pos""", """        pos = self._data.seek(position)
        self._unpacker = Unpacker(self._data, raw=False)
        return pos""")],
  "a reference taken from a document read after seeking inside a block",
  "references of documents read after a seek within the block are wrong",
"""
import io
from docria import Document
from docria.collection import MsgpackDocumentWriter, MsgpackDocumentReader, get_codec
class B(io.BytesIO):
    def close(self): pass
b = B()
w = MsgpackDocumentWriter(b, num_docs_per_block=4, codec=get_codec("none"))
for i in range(4): w.write(Document(i=i))
w.close()
refs = [x.ref for x in MsgpackDocumentReader(io.BytesIO(b.getvalue()))]
r = MsgpackDocumentReader(io.BytesIO(b.getvalue()))
d = r.get(refs[2])
assert d.ref == refs[2], (d.ref, refs[2])
e = next(r)
assert e.ref == refs[3]
""")

S("C10-header-order", "C10", [("collection.py", """            self.outputio.write(self.packer.pack(self.codec(self.currentblock.getvalue())))

            if""", """            data = self.codec(self.currentblock.getvalue())
            for i in range(0, max(len(data), 1), 1 << 16):
                self.outputio.write(self.packer.pack(data[i:i + (1 << 16)]))

            if""")],
  "a block of more than 65536 stored bytes", "a large block is stored as several blocks cut in the middle of a document",
"""
import io
from docria import Document
from docria.collection import MsgpackDocumentWriter, MsgpackDocumentReader, get_codec
class B(io.BytesIO):
    def close(self): pass
b = B()
w = MsgpackDocumentWriter(b, num_docs_per_block=2, codec=get_codec("none"))
for i in range(4):
    d = Document(i=i); d.maintext = "x" * 40000; w.write(d)
w.close()
got = [x.document().props["i"] for x in MsgpackDocumentReader(io.BytesIO(b.getvalue()))]
assert got == [0, 1, 2, 3], got
""")

S("C11-lastsplit", "C11", [("collection.py", """        self.written += 4
        self.seg += 1
""", """        self.written += 4
        self.seg += 1
        if delta == 0:
            self.lastsplit = self.written
""")],
  "a split point exactly on a segment border followed by data over further borders",
  "the recorded distance to the last split point is four bytes short",
"""
import io, struct
from docria.collection import _BoundaryWriter, _BoundaryReader
class B(io.BytesIO):
    def close(self): pass
b = B(); w = _BoundaryWriter(b, boundary=12)
w.write(b"a" * 4095); w.split()
w.write(b"b" * 9000)
v = b.getvalue()
assert struct.unpack(">i", v[4096:4100])[0] == 0
assert struct.unpack(">i", v[8192:8196])[0] == 4096 - 8192, struct.unpack(">i", v[8192:8196])
assert _BoundaryReader(io.BytesIO(v)).read() == b"a" * 4095 + b"b" * 9000
keep = w
""")

S("C12-layer-start", "C12", [("codec.py", "        layer_set = types if len(layers) == 0 else list(layers)", "        layer_set = types if len(layers) == 0 else [t for t in types if t in layers] + [t for t in layers if t not in types]"),
   ("codec.py", """                layer_mapping[typename] = (layer_start, layer_len)
                self.rawdata.seek(layer_start+layer_len)""", """                if layer_len > 0x7f or typename not in layer_mapping:
                    layer_mapping[typename] = (layer_start, layer_len & 0xffff)
                self.rawdata.seek(layer_start+layer_len)""")],
  "a", "b", "")
SEEDS.pop()

S("C12-texts-subset", "C12", [("codec.py", """            text_keys = set(texts)
            num_entries = unpacker.read_map_header()
            for i in range(num_entries):
                k = next(unpacker)
                if k in text_keys:
                    v = next(unpacker)
                    output[k] = v
                else:
                    unpacker.skip()
""", """            text_keys = set(texts)
            num_entries = unpacker.read_map_header()
            for i in range(num_entries):
                k = next(unpacker)
                if k in text_keys:
                    v = next(unpacker)
                    if v:
                        output[k] = v
                    if len(output) == len(text_keys):
                        break
                elif text_keys.issubset(output):
                    break
                else:
                    unpacker.skip()
                    if i and k.startswith(texts[0]):
                        break
""")],
  "asking for one text by name when an earlier text (not the first) has a name starting with that name",
  "the requested text is not returned",
"""
from docria import Document
from docria.codec import MsgpackDocument
d = Document()
for k in ("a", "main2", "main"): d.add_text(k, "text " + k)
m = MsgpackDocument(d)
for k in ("a", "main2", "main"):
    t = m.texts(k)
    assert list(t) == [k] and "".join(t[k]) == "text " + k, (k, t)
""")

S("C12-prop-none", "C12", [("codec.py", """                if k in prop_keys:
                    v = next(unpacker)
                    output[k] = v
                else:
                    unpacker.skip()

        # TODO""", """                if k in prop_keys:
                    v = next(unpacker)
                    if v is not None:
                        output[k] = v
                else:
                    unpacker.skip()

        # TODO""")],
  "selecting a property whose value is None", "a property with value None is missing when selected by name but present otherwise",
"""
from docria import Document
from docria.codec import MsgpackDocument
m = MsgpackDocument(Document(a=None, b=1))
assert m.properties() == {"a": None, "b": 1}
assert m.properties("a") == {"a": None}, m.properties("a")
""")

S("C13-block-reuse", "C13", [("collection.py", """                    elif lastblk.position != ref[0]:
                        reader.seek(ref[0])
                        lastblk = reader.readblock()
""", """                    elif lastblk.position != ref[0]:
                        lastblk = reader.readblock()
""")],
  "two hits in blocks that are not adjacent", "a search whose hits skip a whole block returns a document of the skipped block (or fails)",
"""
import os, shutil, tempfile
from docria import Document
from docria.collection import MsgpackDocumentWriter, build_msgpack_fileindex
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "x.docria")
    with MsgpackDocumentWriter(p, num_docs_per_block=1) as w:
        for i in range(5): w.write(Document(i=i, k=1 if i in (0, 2, 4) else 0))
    ix = build_msgpack_fileindex(p, "k")
    assert [x.props["i"] for x in ix.search({"k": 1})] == [0, 2, 4]
finally:
    shutil.rmtree(d)
""")

S("C13-intersect-empty", "C13", [("collection.py", """        for s in all_hits[1:]:
            results.intersection_update(s)
""", """        for s in all_hits[1:]:
            if s:
                results.intersection_update(s)
""")],
  "a search over two properties, one of whose values no document has", "a condition nobody satisfies is ignored",
"""
import os, shutil, tempfile
from docria import Document
from docria.collection import MsgpackDocumentWriter, build_msgpack_fileindex
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "x.docria")
    with MsgpackDocumentWriter(p) as w:
        for i in range(3): w.write(Document(i=i, a=i % 2, b=7))
    ix = build_msgpack_fileindex(p, "a", "b")
    assert [x.props["i"] for x in ix.search({"a": 0, "b": 7})] == [0, 2]
    assert [x.props["i"] for x in ix.search({"a": 0, "b": 8})] == []
finally:
    shutil.rmtree(d)
""")

S("C15-equal-len", "C15", [("algorithm.py", "                if stop-start <= tup[1]-tup[0]:", "                if stop-start < tup[1]-tup[0] or (stop-start == tup[1]-tup[0] and tup[0] > start):")],
  "two identical segments: the later one must win as the rightmost", "x", "")
SEEDS.pop()

S("C15-tie", "C15", [("algorithm.py", "                if stop-start <= tup[1]-tup[0]:", "                if stop-start < tup[1]-tup[0]:")],
  "two overlapping segments of equal length", "the left one of two equally long overlapping segments wins",
"""
from docria.algorithm import dominant_right
assert dominant_right([(0, 3, "a"), (1, 4, "b")]) == ["b"]
assert dominant_right([(0, 5, "a"), (1, 3, "b")]) == ["a"]
""")

S("C16-empty-between", "C16", [("algorithm.py", "                    for ic in range(i, i+j):\n", "                    for ic in range(i, i+1):\n")],
  "looking two or more tokens ahead (k >= 2) and the closer match being the second one ahead",
  "fewer spans than tokens are returned",
"""
from docria import Document
from docria.algorithm import sequence_to_textspans
d = Document(); d.maintext = "cc aa"
s = sequence_to_textspans(["aa", "bb", "cc"], d.maintext, k=3)
assert len(s) == 3 and [(x.start, x.stop) for x in s] == [(0, 0), (0, 0), (0, 2)], [(x.start, x.stop) for x in s]
""")

S("C18-bfs-reject", "C18", [("algorithm.py", """        if is_result and is_result(current_node):
            yield current_depth, current_node
        elif not is_result:
            yield current_depth, current_node
""", """        if is_result:
            if not is_result(current_node) and current_depth > 0:
                continue
            yield current_depth, current_node
        else:
            yield current_depth, current_node
""")],
  "a result node that is only reachable through a node the filter rejects", "bfs stops at nodes the filter rejects (and emits a rejected start node)",
"""
from docria import Document, DataTypes as T
from docria.algorithm import bfs, children_of
d = Document(); l = d.add_layer("t", c=T.noderef_many("t"), x=T.int32())
n = [l.add(x=i) for i in range(3)]
n[0]["c"] = [n[1]]; n[1]["c"] = [n[2]]
r = [m["x"] for _, m in bfs(n[0], children_of(l, "c"), lambda m: m["x"] == 2)]
assert r == [2], r
""")

S("C18-dfs-order", "C18", [("algorithm.py", """        child_nodes = [ch for ch in children(current) if ch not in visited]
        child_nodes.reverse()
        stack.extend(child_nodes)


def dfs_leaves""", """        child_nodes = [ch for ch in children(current) if ch not in visited and ch not in stack]
        child_nodes.reverse()
        stack.extend(child_nodes)


def dfs_leaves""")],
  "a node reachable both as a later sibling and deeper below an earlier sibling", "nodes are emitted later than depth first order demands",
"""
from docria import Document, DataTypes as T
from docria.algorithm import dfs, children_of
d = Document(); l = d.add_layer("t", c=T.noderef_many("t"), x=T.int32())
n = [l.add(x=i) for i in range(4)]
n[0]["c"] = [n[1], n[2]]; n[1]["c"] = [n[2], n[3]]
assert [m["x"] for m in dfs(n[0], children_of(l, "c"))] == [0, 1, 2, 3]
""")

S("C19-remove-default", "C19", [("model.py", """        del self._schema.fields[name]
        self._update_default_values()
        return True""", """        del self._schema.fields[name]
        return True""")],
  "adding a node after a field with a default was removed", "new nodes still get the removed field's default value",
"""
from docria import Document, DataTypes as T
from docria.codec import MsgpackCodec
d = Document(); l = d.add_layer("t", x=T.int32(5), y=T.int32())
l.add(x=1, y=1); l.remove_field("x")
n = l.add(y=2)
assert "x" not in n, dict(n)
MsgpackCodec.encode(d)
""")

S("C22-bool-cast", "C22", [("model.py", "        elif self.typename in {DataTypeEnum.BOOL, DataTypeEnum.I32, DataTypeEnum.I64, DataTypeEnum.F64}:\n            # BOOL < I32 < I64 < F64\n            return dtype.typename in {DataTypeEnum.I32, DataTypeEnum.I64, DataTypeEnum.F64, DataTypeEnum.BOOL}",
   "        elif self.typename in {DataTypeEnum.BOOL, DataTypeEnum.I32, DataTypeEnum.I64, DataTypeEnum.F64}:\n            # BOOL < I32 < I64 < F64\n            return dtype.typename in {DataTypeEnum.I32, DataTypeEnum.I64, DataTypeEnum.F64}")],
  "merging a numeric type with a boolean type in one order", "whether a boolean and a number can be merged depends on the order",
"""
from docria import DataTypes as T
a, b = T.bool(), T.int32()
assert a.cast_up_possible(b) and b.cast_up_possible(a)
""")

S("C22-typeof-neg", "C22", [("model.py", "                if -0x80000000 <= o <= 0x7FFFFFFF:\n                    return DataTypes.int32()", "                if abs(o) <= 0x80000000:\n                    return DataTypes.int32()")],
  "the single value 2147483648 with an int32 hint", "2**31 is typed as int32",
"""
from docria import DataTypes as T
for v in (2**31 - 1, -2**31, 2**31, -2**31 - 1):
    assert T.typeof(v, T.int32()).is_valid(v), v
""")

S("C23-tar-nodir", "C23", [("collection.py", "            if ti.isfile():\n", "            if not ti.isdir():\n")],
  "a tar with a member that is neither a file nor a directory, such as a symbolic link",
  "reading fails or yields something that is no document at members that are not files",
"""
import os, shutil, tarfile, tempfile, io
from docria import Document
from docria.codec import MsgpackCodec
from docria.collection import TarMsgpackReader
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "x.tar.gz")
    with tarfile.open(p, "w:gz") as t:
        for k in range(2):
            b = MsgpackCodec.encode(Document(i=k)); ti = tarfile.TarInfo("d%d" % k); ti.size = len(b); t.addfile(ti, io.BytesIO(b))
            f = tarfile.TarInfo("fifo%d" % k); f.type = tarfile.FIFOTYPE; t.addfile(f)
    assert [m.properties()["i"] for m in TarMsgpackReader(p)] == [0, 1]
finally:
    shutil.rmtree(d)
""")
