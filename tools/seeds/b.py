SEEDS = []
def S(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

S("C02-json-empty-string", "C02", [("codec.py", """                def simple_field(data):
                    nonlocal nodes

                    for n, v in zip(nodes, data):
                        if v is not None:
                            n[col] = v

                def span_field""", """                def simple_field(data):
                    nonlocal nodes

                    for n, v in zip(nodes, data):
                        if v is not None and v != "":
                            n[col] = v

                def span_field""")],
  "a string field holding the empty string", "empty strings are dropped when decoding JSON",
"""
from docria import Document, DataTypes as T
from docria.codec import JsonCodec
d = Document()
l = d.add_layer("t", s=T.string())
l.add(s=""); l.add(s="b")
e = JsonCodec.decode(JsonCodec.encode(d))
assert [n.get("s") for n in e["t"]] == ["", "b"]
""")

S("C07-trim-front", "C07", [("model.py", """            for w in str(self):
                if not str.isspace(w):
                    break
""", """            for w in str(self):
                if w != self.text.text[self.start]:
                    break
""")],
  "a span starting with two different whitespace characters", "trim stops at the first change of whitespace character",
"""
from docria import Document
d = Document(); d.maintext = " \\tab "
assert str(d.maintext[0:5].trim()) == "ab"
s = d.maintext[0:4]; s.trim_(); assert str(s) == "ab"
""")

S("C14-cover-field", "C14", [("algorithm.py", "                k: [n for n in v if is_covered_by(n[layer_span_field[k]], group_span)]", "                k: [n for n in v if is_covered_by(n[group_span_field if group_span_field in n else layer_span_field[k]], group_span)]")],
  "resolution 'cover' where the layer's span field differs from the group's, and its nodes carry a field of the group's field name too",
  "covering is judged by the wrong field",
"""
from docria import Document, DataTypes as T
from docria.algorithm import group_by_span
d = Document(); d.maintext = "abcdef"
g = d.add_layer("g", text=T.span()); t = d.add_layer("t", text=T.span(), sp=T.span())
g.add(text=d.maintext[0:3]); m = t.add(text=d.maintext[0:1], sp=d.maintext[2:5]); n = t.add(text=d.maintext[4:5], sp=d.maintext[1:2])
r = group_by_span(list(g), {"t": list(t)}, resolution="cover", layer_span_field={"t": "sp"})
assert r[0][1]["t"] == [n], r
""")

S("C16-tie-skip", "C16", [("algorithm.py", "                if cand_location != -1 and cand_location < location:", "                if cand_location != -1 and cand_location <= location:")],
  "the next token also starts where the current one was found (e.g. it is a prefix of it)", "a token that is present is skipped in favour of a later one",
"""
from docria import Document
from docria.algorithm import sequence_to_textspans
d = Document(); d.maintext = "aba"
s = sequence_to_textspans(["ab", "a"], d.maintext)
assert [(x.start, x.stop) for x in s] == [(0, 2), (2, 3)], [(x.start, x.stop) for x in s]
""")

S("C17-sort-pos", "C17", [("algorithm.py", "    mapping_in_source.sort(key=lambda tup: tup[0])", "    mapping_in_source.sort(key=lambda tup: tup[0][0])")],
  "mapping nodes not stored in source order, or spans starting at the border of two mapping intervals", "touching intervals are taken for overlapping",
"""
from docria import Document, DataTypes as T
from docria.algorithm import span_translate
d = Document(); t = d.add_text("target", "ab<x>cd"); s = d.add_text("source", "abcd")
m = d.add_layer("m", t=T.span("target"), s=T.span("source"))
m.add(t=t[5:7], s=s[2:4]); m.add(t=t[0:2], s=s[0:2])
l = d.add_layer("l", s=T.span("source"), t=T.span("target"))
n = l.add(s=s[1:3])
span_translate(d, "m", ("t", "s"), "l", ("s", "t"))
assert (n["t"].start, n["t"].stop) == (1, 6)
""")

S("C17-overwrite", "C17", [("algorithm.py", "        if target_pos_remap not in n:\n            sourceRemapStart", "        if source_pos_remap in n:\n            sourceRemapStart")],
  "a node that already has its target span", "target spans already present are overwritten",
"""
from docria import Document, DataTypes as T
from docria.algorithm import span_translate
d = Document(); t = d.add_text("target", "ab<x>cd"); s = d.add_text("source", "abcd")
m = d.add_layer("m", t=T.span("target"), s=T.span("source"))
m.add(t=t[0:2], s=s[0:2]); m.add(t=t[5:7], s=s[2:4])
l = d.add_layer("l", s=T.span("source"), t=T.span("target"))
n = l.add(s=s[1:3], t=t[3:4])
span_translate(d, "m", ("t", "s"), "l", ("s", "t"))
assert (n["t"].start, n["t"].stop) == (3, 4)
""")

S("C04-num-readd", "C04", [("model.py", """                        self._nodes[n._id] = None
                        self.num -= 1
                        n.collection = None
                    elif n is None:""", """                        self._nodes[n._id] = None
                        n.collection = None
                    elif n is None:"""), ("model.py", """        if 0.75 * len(self._nodes) > self.num and len(self._nodes) > 16:
            self.compact()""", """            self.num = sum(1 for m in self._nodes if m)

        if 0.75 * len(self._nodes) > self.num and len(self._nodes) > 16:
            self.compact()""")],
  "removing several nodes at once from a layer that also holds nodes without any field", "the number of nodes is wrong afterwards",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", x=T.string(default=None))
n = [l.add(x="a"), l.add(), l.add(x="c"), l.add(x="d")]
l.remove([n[3], n[0]])
assert len(l) == 2 and len(list(l)) == 2
""")

S("C04-last-gap", "C04", [("model.py", "        return next(filter(None.__ne__, map(self._nodes.__getitem__, range(len(self._nodes) - 1, -1, -1))), None)",
  "        return next(filter(None.__ne__, map(self._nodes.__getitem__, range(self.num - 1, -1, -1))), None)")],
  "a layer with gaps", "last() returns an earlier node", 
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", x=T.int32())
n = [l.add(x=i) for i in range(4)]
l.remove(n[0])
assert l.last() is n[3], l.last()
""")

S("C08-contains-identity", "C08", [("query.py", "        return n.get(self.fld) in self.values", "        return self.fld in n and n[self.fld] in set(self.values)")],
  "is_any with None among the values, or with spans (hashed by text)", "is_any(None, ...) leaves out nodes without the field",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", x=T.int32(default=None))
a = l.add(x=1); b = l.add(); c = l.add(x=2)
assert list(l[l["x"].is_any(1, None)]) == [a, b]
""")

S("C10-tail-none", "C10", [("collection.py", """        data = next(self.unpacker, None)
        if data is None:
            return None
        else:
            buf""", """        data = next(self.unpacker, None)
        if not data:
            return None
        else:
            buf""")],
  "x", "x", "")
SEEDS.pop()

S("C10-partial-block", "C10", [("collection.py", """            buf = self.codec(data)
            blk = MsgpackDocumentBlock(self._lastblockpos, buf)
            return blk""", """            buf = self.codec(data) if isinstance(data, bytes) else bytes([data])
            blk = MsgpackDocumentBlock(self._lastblockpos, buf)
            return blk"""),
  ("collection.py", """            self.outputio.write(self.packer.pack(self.codec(self.currentblock.getvalue())))
""", """            data = self.codec(self.currentblock.getvalue())
            self.outputio.write(self.packer.pack_map_header(len(data)) if len(data) == 0 else self.packer.pack(data[:1 << 15]))
            if len(data) > 1 << 15:
                self.outputio.write(self.packer.pack(data[1 << 15:]))
""")],
  "a block whose stored form exceeds 32768 bytes", "blocks are split in two where documents are cut",
"""
import io
from docria import Document
from docria.collection import MsgpackDocumentWriter, MsgpackDocumentReader, get_codec
class B(io.BytesIO):
    def close(self): pass
b = B()
w = MsgpackDocumentWriter(b, num_docs_per_block=4, codec=get_codec("none"))
for i in range(4):
    d = Document(i=i); d.maintext = "y" * 12000; w.write(d)
w.close()
got = [x.document().props["i"] for x in MsgpackDocumentReader(io.BytesIO(b.getvalue()))]
assert got == [0, 1, 2, 3], got
""")

S("C06-span-int-end", "C06", [("model.py", "    def text_to(self, right_span: \"TextSpan\") -> str:", "    def text_to(self, right_span: \"TextSpan\") -> str:\n        if right_span.stop < self.start:\n            return right_span.text_to(self)\n        return self._text_to(right_span)\n\n    def _text_to(self, right_span: \"TextSpan\") -> str:")],
  "x", "x", "")
SEEDS.pop()

S("C19-add-field-gap", "C19", [("model.py", """            if defaultvalue is not None:
                for n in self:
                    n[name] = defaultvalue""", """            if defaultvalue is not None:
                for n in self._nodes[:self.num]:
                    if n is not None:
                        n[name] = defaultvalue""")],
  "adding a field with a default to a layer that has gaps", "x", "")
SEEDS.pop()

S("C19-addmany-keys", "C19", [("model.py", """            keys = set(self._default_values.keys())
            for n in self._nodes[start_pos:]:
                for missing_key in keys.difference(n.keys()):
                    n[missing_key] = self._default_values[missing_key]""", """            keys = set(self._default_values.keys())
            for n in self._nodes[start_pos:]:
                if not n:
                    continue
                for missing_key in keys.difference(n.keys()):
                    n[missing_key] = self._default_values[missing_key]""")],
  "add_many with a node that has no field at all", "such nodes get no defaults",
"""
from docria import Document, DataTypes as T, Node
d = Document(); l = d.add_layer("t", x=T.int32(5))
a, b = Node(), Node(x=1)
l.add_many([a, b])
assert (a.get("x"), b["x"]) == (5, 1)
""")

S("C22-nodelist-merge", "C22", [("model.py", """            for nc in node_collections:
                for fld, dtype in nc.fieldtypes.items():
                    fields.setdefault(fld, set()).add(dtype)
""", """            for nc in node_collections:
                for fld, dtype in nc.fieldtypes.items():
                    if fld not in fields or len(node_collections) > 1:
                        fields.setdefault(fld, set()).add(dtype)
""")],
  "a list mixing loose nodes and nodes of exactly one layer", "the layer's type is ignored: the merged type is not wide enough",
"""
from docria import Document, DataTypes as T, Node
from docria.model import NodeList, DataTypeEnum
d = Document(); l = d.add_layer("t", x=T.float64())
n = l.add(x=1.5)
nl = NodeList([Node(x=3), n])
assert nl.fieldtypes["x"].typename == DataTypeEnum.F64, nl.fieldtypes
""")

S("C23-tar-index", "C23", [("collection.py", """        ti.size = len(data)
        self.i += 1
""", """        ti.size = len(data)
        self.i = (self.i + 1) % 100000
""")], "x", "x", "")
SEEDS.pop()

S("C13-index-falsy", "C13", [("collection.py", """                if prop in props:
                    property2docis[prop].setdefault(props[prop], []).append(docid)""", """                if props.get(prop):
                    property2docis[prop].setdefault(props[prop], []).append(docid)""")],
  "a property whose value is 0, '' or False", "documents with such values are not found",
"""
import os, shutil, tempfile
from docria import Document
from docria.collection import MsgpackDocumentWriter, build_msgpack_fileindex
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "x.docria")
    with MsgpackDocumentWriter(p) as w:
        for i in range(3): w.write(Document(i=i, a=i % 2))
    ix = build_msgpack_fileindex(p, "a")
    assert [x.props["i"] for x in ix.search({"a": 0})] == [0, 2]
finally:
    shutil.rmtree(d)
""")

S("C12-schema-order", "C12", [("codec.py", """            for typename in self._schema[0]:
                layer_len = next(unpacker)
                layer_start = unpacker.tell() + start_pos
""", """            for typename in self._schema[0]:
                layer_len = next(unpacker)
                layer_start = start_pos + (1 if layer_len < 0x80 else 2 if layer_len < 0x100 else 3 if layer_len < 0x8000 else 5)
""")],
  "a document with a layer whose encoded form is between 32768 and 65535 bytes", "layers cannot be found after such a layer",
"""
from docria import Document, DataTypes as T
from docria.codec import MsgpackDocument
d = Document()
a = d.add_layer("a", s=T.string()); b = d.add_layer("b", s=T.string())
a.add(s="x" * 40000); b.add(s="q")
e = MsgpackDocument(d).document()
assert [n["s"] for n in e["b"]] == ["q"] and len(list(e["a"])[0]["s"]) == 40000
""")

S("C03-many-first", "C03", [("model.py", "               all(map(lambda n: n.collection is not None and n.collection.name == target_layer, value))",
  "               (len(value) == 0 or all(map(lambda n: n.collection is not None and n.collection.name == target_layer, value[:8])))")],
  "x", "x", "")
SEEDS.pop()

S("C15-open-close", "C15", [("algorithm.py", """            if open_node is tup:
                segment_output.append(tup[2])
                open_node = None""", """            if open_node is not None and open_node[1] == tup[1]:
                segment_output.append(open_node[2])
                open_node = None""")],
  "x", "two segments", "")
SEEDS.pop()
