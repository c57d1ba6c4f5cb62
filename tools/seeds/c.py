SEEDS = []
def S(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

S("C20-span-until", "C20", [("codec.py", '"until": str(offset_mapping[span.stop])', '"until": str(offset_mapping[span.start] + 1)')],
  "a span containing an offset where another span starts or stops", "the exported end position covers only the first segment",
"""
from docria import Document, DataTypes as T
from docria.codec import XmlCodec
d = Document(); d.maintext = "abcdef"
l = d.add_layer("t", s=T.span())
l.add(s=d.maintext[0:4]); l.add(s=d.maintext[1:2])
t = XmlCodec.encode_tree(d).getroot()
seg = [e.get("v") for e in t.find("texts/text/sep")]
n = t.findall("layers/layer/n/d")[0]
assert "".join(seg[int(n.get("from")):int(n.get("until"))]) == "abcd"
""")

S("C20-many-dedup", "C20", [("codec.py", "        DataTypeEnum.NODEREF_MANY: lambda v: [str(n._id) for n in v],",
                             "        DataTypeEnum.NODEREF_MANY: lambda v: [str(i) for i in dict.fromkeys(n._id for n in v)],")],
  "a reference list holding the same node twice", "a repeated reference is exported once",
"""
from docria import Document, DataTypes as T
from docria.codec import XmlCodec
d = Document()
l = d.add_layer("t", m=T.noderef_many("t"))
a = l.add(); b = l.add(); a["m"] = [b, a, b]
t = XmlCodec.encode_tree(d).getroot()
assert [e.get("v") for e in t.findall("layers/layer/n/a/e")] == ["1", "0", "1"]
""")

S("C20-empty-value", "C20", [("codec.py", "                    res = node_getter(n, field, None)\n                    if res is not None:",
                              "                    res = node_getter(n, field, None)\n                    if res is not None and (res or not isinstance(res, str)):")],
  "a string field set to the empty string", "an empty string is exported as an absent value",
"""
from docria import Document, DataTypes as T
from docria.codec import XmlCodec
d = Document()
l = d.add_layer("t", s=T.string())
l.add(s="")
t = XmlCodec.encode_tree(d).getroot()
assert t.find("layers/layer/n").get("s") == ""
""")

S("C20-verbose-pos", "C20", [("codec.py", "                    pos += len(entry)\n                    i += 1", "                    pos += len(entry.encode(\"utf-8\"))\n                    i += 1")],
  "verbose mode and a text with non-ASCII characters before the last segment", "segment positions count bytes, not characters",
"""
from docria import Document, DataTypes as T
from docria.codec import XmlCodec
d = Document(); d.maintext = "\\u00e5bc"
l = d.add_layer("t", s=T.span()); l.add(s=d.maintext[1:2])
t = XmlCodec.encode_tree(d, verbose=True).getroot()
assert [(e.get("start"), e.get("stop")) for e in t.find("texts/text/sep")] == [("0", "1"), ("1", "2"), ("2", "3")]
""")

S("C21-rows-ge", "C21", [("printout.py", """        headers = self.format_html(self.header, 0)

        if options.max_rows is not None and len(self.body) > options.max_rows:""", """        headers = self.format_html(self.header, 0)

        if options.max_rows is not None and len(self.body) >= options.max_rows:""")],
  "a table with exactly the maximum number of rows, as HTML", "an elision mark although every row is shown",
"""
from docria import printout as p
t = p.Table(); t.set_header("a")
p.options.max_rows = 3
for i in range(3): t.add_body("v%d" % i)
assert ". . ." not in t.render_html()
""")

S("C21-html-numbering", "C21", [("printout.py", """            lower_part = zip(range(len(self.body)-part, len(self.body)), self.body[-part:])

            body.extend(list(map(lambda tup: self.format_html(row=tup[1], index=tup[0]), upper_part)))""", """            lower_part = zip(range(options.max_rows-part, len(self.body)), self.body[-part:])

            body.extend(list(map(lambda tup: self.format_html(row=tup[1], index=tup[0]), upper_part)))""")],
  "an HTML table with more rows than allowed", "the last rows are numbered as if nothing had been left out",
"""
from docria import printout as p
t = p.Table(); t.set_header("a")
p.options.max_rows = 4
for i in range(10): t.add_body("v%d" % i)
h = t.render_html()
assert "<td style='text-align:left'>9</td>" in h and "<td style='text-align:left'>2</td>" not in h
""")

S("C21-truncate-tail", "C21", [("printout.py", 'text[0:part], text[-part:])', 'text[0:part], text[part-max_sz:])')],
  "a text longer than the column width", "the cut text is longer than the column width",
"""
from docria import printout as p
p.options.max_column_width = 20
assert len(p.truncate("x" * 21)) <= 20
""")

S("C21-caption-markup", "C21", [("printout.py", "            output.append(escape(self.caption))", "            output.append(self.caption)")],
  "a caption with markup characters, e.g. from a layer name", "the caption introduces markup in HTML",
"""
from docria import printout as p
t = p.Table(caption="a<b>"); t.set_header("x")
assert "<b>" not in t.render_html()
""")

S("C21-link-markup", "C21", [("printout.py", "format(escape(parts[0]), escape(parts[1]))", "format(escape(parts[0]), parts[1])")],
  "a Wikipedia URN whose title contains an apostrophe", "the link ends at the apostrophe",
"""
from docria import printout as p
from xml.etree import ElementTree as E
t = p.Table(); t.set_header("x"); t.add_body("urn:wikipedia:en:Hubert's x=''")
h = t.render_html()
a = [x for x in E.fromstring(h).iter("a")]
assert a[0].get("href").endswith("Hubert's x=''") and list(a[0].keys()) == ["href"]
""")

S("C01-ref-zero", "C01", [("codec.py", """        for typename in types:
            for col, typedef in schema[typename]:
                if typedef.typename == DataTypeEnum.NODEREF:

                    # Replace int placeholds with an actual node reference.
                    target_type = typedef.options["layer"]
                    target_nodes = all_nodes[target_type]

                    for n in all_nodes[typename]:
                        if col in n:
                            n[col] = target_nodes[n[col]]""", """        for typename in types:
            for col, typedef in schema[typename]:
                if typedef.typename == DataTypeEnum.NODEREF:

                    # Replace int placeholds with an actual node reference.
                    target_type = typedef.options["layer"]
                    target_nodes = all_nodes[target_type]

                    for n in all_nodes[typename]:
                        if n.get(col):
                            n[col] = target_nodes[n[col]]""")],
  "a reference to the first node of a layer", "the reference stays a number",
"""
from docria import Document, DataTypes as T
from docria.codec import MsgpackCodec
d = Document(); l = d.add_layer("t", r=T.noderef("t"))
a = l.add(); a["r"] = a
e = MsgpackCodec.decode(MsgpackCodec.encode(d))
assert e["t"][0]["r"] is e["t"][0]
""")

S("C01-float-int", "C01", [("codec.py", "        DataTypeEnum.F64: lambda l, v: l.append(None if v is None else float(v)),",
                            "        DataTypeEnum.F64: lambda l, v: l.append(None if v is None else int(v) if v == int(v) else float(v)),"),],
  "a whole float value", "whole floats come back as integers (and infinite ones cannot be encoded)",
"""
from docria import Document, DataTypes as T
from docria.codec import MsgpackCodec
d = Document(); l = d.add_layer("t", f=T.float64())
l.add(f=2.0)
e = MsgpackCodec.decode(MsgpackCodec.encode(d))
assert type(e["t"][0]["f"]) is float
""")

S("C02-span-zero", "C02", [("codec.py", """                    def decoder(data):
                        for n, v in zip(nodes, range(int(len(data)/2))):
                            if data[v*2] is not None:""", """                    def decoder(data):
                        for n, v in zip(nodes, range(int(len(data)/2))):
                            if data[v*2] is not None and data[v*2+1]:""")],
  "an empty span at the beginning of the text", "empty spans at the start of a text are dropped when decoding JSON",
"""
from docria import Document, DataTypes as T
from docria.codec import JsonCodec
d = Document(); d.maintext = "abc"
l = d.add_layer("t", s=T.span()); l.add(s=d.maintext[0:0])
e = JsonCodec.decode(JsonCodec.encode(d))
assert str(e["t"][0]["s"]) == ""
""")

S("C03-extra-subset", "C03", [("model.py", "                    if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0:",
                               "                    if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0 and not fieldkeys < set(n.keys()):")],
  "a node with an undeclared field that also has every declared one", "undeclared fields are accepted",
"""
from docria import Document, DataTypes as T, Node
from docria.codec import MsgpackCodec
d = Document(); l = d.add_layer("t", a=T.int32(None), b=T.int32(None))
l.add(Node(a=1, b=3, c=2))
try:
    MsgpackCodec.encode(d)
except Exception:
    pass
else:
    raise AssertionError
""")

S("C04-retain-len", "C04", [("model.py", """            if n._id >= 0:
                n.collection = None
                self.num -= 1
            else:
                self._nodes[k] = n""", """            if n._id >= 0:
                n.collection = None
                self.num = len(nodes)
            else:
                self._nodes[k] = n""")],
  "retain given the same node twice", "the length counts the repeated node twice",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", a=T.int32())
a, b = l.add(a=1), l.add(a=2)
l.retain([a, a])
assert len(l) == 1 and list(l) == [a]
""")

S("C04-compact-num", "C04", [("model.py", "        if len(self._nodes) == self.num:\n            # No compacting needed.\n            return\n",
                              "        if len(self._nodes) == self.num or self._nodes[-1] is None:\n            # No compacting needed.\n            return\n")],
  "a layer whose last node was removed together with earlier ones, then compacted or sorted", "a gap at the end stops compacting",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", a=T.int32())
ns = [l.add(a=i) for i in range(4)]
l.remove([ns[1], ns[3]])
l.compact()
assert ns[2].i == 1
""")

S("C05-iter-span-eq", "C05", [("model.py", "        if self.i <= node.i:\n            return self.collection.iter_nodespan(self, node)",
                               "        if self.collection.first().i <= self.i < node.i or self is self.collection.first():\n            return self.collection.iter_nodespan(self, node)")],
  "never: equal order", "unused", "raise SystemExit(0)")
SEEDS.pop()

S("C05-right-gap", "C05", [("model.py", "        for i in range(n.i + 1, len(self._nodes)):", "        for i in range(n.i + 1, max(self.num, n.i + 2)):")],
  "gaps before a node and its right neighbour", "the right neighbour is not found past the node count",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", a=T.int32())
ns = [l.add(a=i) for i in range(5)]
l.remove([ns[0], ns[3]])
assert ns[2].right is ns[4]
""")

S("C06-tuple-negative", "C06", [("model.py", """            if start < 0 or stop < 0 or start > len(self.text) or stop > len(self.text):
                raise""", """            if stop < 0 or start > len(self.text) or stop > len(self.text):
                raise""")],
  "a pair with a negative start", "a negative start in a pair is accepted",
"""
from docria import Document
d = Document(); d.maintext = "abc"
try:
    d.maintext[-1, 2]
except Exception:
    pass
else:
    raise AssertionError
""")

S("C07-eq-hash", "C07", [("model.py", "        return hash((id(self.text), self._start, self._stop))", "        return hash((id(self.text), self.start_offset, self.stop_offset))"),
                          ("model.py", "            self._start, self._stop = offs\n", "            self._start, self._stop = offs\n            offs = (self.start_offset, offs[1])\n")],
  "a span trimmed in place at its start, used as a key", "equal spans have different hashes after an in-place trim",
"""
from docria import Document
d = Document(); d.maintext = " ab "
a, b = d.maintext[0:4].trim_(), d.maintext[1:3]
assert a == b and hash(a) == hash(b)
""")

S("C07-cover-tuple", "C07", [("model.py", "            return start <= self.start and stop >= self.stop", "            return start <= self.start and stop >= self.stop and start < stop")],
  "an empty span compared with an empty range at the same place, given as a pair", "an empty span is not covered by its own range",
"""
from docria import Document
d = Document(); d.maintext = "abc"
assert d.maintext[1:1].covered_by((1, 1))
""")

S("C08-any-first", "C08", [("query.py", "        return n.get(self.fld) in self.values", "        v = n.get(self.fld)\n        return v in self.values if v != 0 else self.values[0] == v")],
  "any-of with a zero value that is not the first one given", "zero is only looked for first",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", f=T.int32())
l.add(f=0)
assert len(l[l["f"].is_any(1, 0)]) == 1
""")

S("C08-column-falsy", "C08", [("model.py", "        return map(lambda n: n.get(self.field), self.collection)", "        return map(lambda n: n.get(self.field) or None, self.collection)")],
  "a field whose value is 0, an empty string or False", "falsy values are listed as none",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", f=T.int32())
l.add(f=0)
assert list(l["f"]) == [0]
""")

S("C09-ref-lastpos", "C09", [("collection.py", "        self.block.seek(ref[1])\n", "        self.block.seek(ref[1])\n        self.block._position = self._lastblockpos\n")],
  "a block read by readblock() between reading a document and getting a reference in the current block", "references read afterwards name the wrong block",
"""
import io
from docria import Document
from docria.collection import MsgpackDocumentWriter, MsgpackDocumentReader, get_codec
b = io.BytesIO()
w = MsgpackDocumentWriter(b, num_docs_per_block=2)
for i in range(4): w.write(Document(i=i))
w.flush()
r = MsgpackDocumentReader(io.BytesIO(b.getvalue()))
a = next(r); r.readblock(); r.get(a.ref); d = next(r)
assert d.properties()["i"] == 1
q = MsgpackDocumentReader(io.BytesIO(b.getvalue()))
assert q.get(d.ref).properties()["i"] == 1
""")

S("C11-absolute", "C11", [("collection.py", "        if offset < boundary_val - 1:\n            return offset + 1", "        if offset < boundary_val - 1 or offset == boundary_val * 2 - 5:\n            return offset + 1 if offset < boundary_val - 1 else boundary_val * 2")],
  "seeking exactly to the first byte after the second boundary", "boundary bytes show up in the data",
"""
import io
from docria.collection import _BoundaryReader, _BoundaryWriter
b = io.BytesIO(); w = _BoundaryWriter(b, boundary=12); data = bytes(i % 251 for i in range(20000)); w.write(data)
r = _BoundaryReader(io.BytesIO(b.getvalue()))
for k in range(8180, 8200):
    r.seek(k)
    assert r.read(100) == data[k:k + 100]
""")

S("C11-maxread", "C11", [("collection.py", "            max_read = (((current_position >> self.boundary) + 1) << self.boundary) - current_position",
                          "            max_read = (((current_position - 1 >> self.boundary) + 1) << self.boundary) - current_position")],
  "never (positions right after a boundary are at 4)", "unused", "raise SystemExit(0)")
SEEDS.pop()

S("C13-order", "C13", [("collection.py", "            for docid in sorted(results):", "            for docid in sorted(results, key=lambda i: (self.docrefs[i][1], self.docrefs[i][0]) if lazy else i):")],
  "a lazy search with hits in several blocks", "hits are ordered by position in the block, not by file order",
"""
import os, tempfile
from docria import Document
from docria.collection import MsgpackDocumentIO, MsgpackDocumentWriter, DocumentFileIndex
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.docria")
    with MsgpackDocumentWriter(f, num_docs_per_block=2) as w:
        for i in range(4): w.write(Document(p="x", i=i))
    ix = DocumentFileIndex.build(f, "p")
    assert [x.properties()["i"] for x in ix.search({"p": "x"}, lazy=True)] == [0, 1, 2, 3]
""")

S("C14-open-dup", "C14", [("algorithm.py", "                node_list.append(((span.start, 3), (None, group_node)))", "                node_list.append(((span.start, 2), (None, group_node)))")],
  "an empty group and an empty layer node at the same position", "never? order 2 before 3", "raise SystemExit(0)")
SEEDS.pop()

S("C14-group-once", "C14", [("algorithm.py", "                    group_dict = {k: [] for k in layer_nodes.keys()}\n                    groups[node] = group_dict\n", "                    group_dict = groups.setdefault(node, {k: [] for k in layer_nodes.keys()})\n"),
   ("algorithm.py", "                    open_nodes.remove((layer, node))", "                    open_nodes = {(l, n) for l, n in open_nodes if n is not node}")],
  "the same node given under two layer names with different span fields", "closing a node in one layer closes it in the other",
"""
from docria import Document, DataTypes as T
from docria.algorithm import group_by_span
d = Document(); d.maintext = "abcdef"
g = d.add_layer("g", text=T.span()); t = d.add_layer("t", x=T.span(), y=T.span())
G = g.add(text=d.maintext[3:4]); n = t.add(x=d.maintext[0:2], y=d.maintext[0:5])
r = group_by_span([G], {"a": [n], "b": [n]}, layer_span_field={"a": "x", "b": "y"})
assert r[0][1]["b"] == [n], r
""")

S("C15-open-empty", "C15", [("algorithm.py", "        if start != stop:\n            segment_list.append(((stop-1, 1), tup))", "        if stop - start > 1:\n            segment_list.append(((stop-1, 1), tup))")],
  "a segment of one character followed directly by another", "a one-character segment swallows its right neighbour",
"""
from docria.algorithm import dominant_right
assert dominant_right([(0, 1, "a"), (1, 2, "b")]) == ["a", "b"]
""")

S("C16-k-window", "C16", [("algorithm.py", "            for j in range(1, min(k+1, len(token_sequence)-i)):", "            for j in range(1, min(k+1, len(token_sequence)-i-1)):")],
  "the last token occurs closer than the one before it", "the last token is never considered for skipping",
"""
from docria import Document
from docria.algorithm import sequence_to_textspans
d = Document(); d.maintext = "b a"
assert [str(s) for s in sequence_to_textspans(["a", "b"], d.maintext)] == ["", "b"]
""")

S("C17-stop-outside", "C17", [("algorithm.py", "            sourceRemapStop = n[source_pos_remap].stop-1\n", "            sourceRemapStop = max(n[source_pos_remap].stop-1, 0) if len(n[source_pos_remap]) < 2 else n[source_pos_remap].stop-2\n"),
                               ("algorithm.py", "                stopOffset = (marker - active_interval_start) + active_interval_target_start + 1\n",
                                "                stopOffset = (marker - active_interval_start) + active_interval_target_start + (1 if len(node[source_pos_remap]) < 2 else 2)\n")],
  "a span whose last character is the first of a mapping interval (or lies outside all)", "the end is mapped from the character before the last one",
"""
from docria import Document, DataTypes as T
from docria.algorithm import span_translate
d = Document(); s = d.add_text("src", "abcd"); t = d.add_text("tgt", "..ab....cd")
m = d.add_layer("m", s=T.span("src"), t=T.span("tgt"))
m.add(s=s[0:2], t=t[2:4]); m.add(s=s[2:4], t=t[8:10])
l = d.add_layer("l", s=T.span("src"), t=T.span("tgt"))
n = l.add(s=s[1:3])
span_translate(d, "m", ("t", "s"), "l", ("s", "t"))
assert (n["t"].start, n["t"].stop) == (3, 9)
""")

S("C18-children-many", "C18", [("algorithm.py", "                yielders.append(node_array_iter(prop))", "                yielders.append(node_array_iter(prop) if prop not in props[:-1] or prop == props[0] else node_iter(prop))")],
  "children over three fields, the middle one a reference list", "the list itself is given as a child",
"""
from docria import Document, DataTypes as T
from docria.algorithm import children_of
d = Document(); l = d.add_layer("t", a=T.noderef("t"), b=T.noderef_many("t"), c=T.noderef("t"))
a, b = l.add(), l.add()
a["a"] = b; a["b"] = [a, b]; a["c"] = a
assert list(children_of(l, "a", "b", "c")(a)) == [b, a, b, a]
""")

S("C19-cascade-first", "C19", [("model.py", "                            referencing_layer_field.setdefault(k, []).append(fk)", "                            referencing_layer_field[k] = [fk]")],
  "a layer with two fields referring to the removed one", "cascading removes only the last referring field of a layer",
"""
from docria import Document, DataTypes as T
d = Document(); d.add_layer("a"); l = d.add_layer("b", x=T.noderef("a"), y=T.noderef_many("a"))
d.remove_layer("a", fieldcascade=True)
assert list(l.schema.fields) == []
""")

S("C19-addfield-overwrite", "C19", [("model.py", "                for missing_key in keys.difference(n.keys()):\n", "                for missing_key in (k for k in keys if not n.get(k)):\n")],
  "add_many with a node that sets a falsy value where the default is another", "an explicit 0, False or empty string is overwritten by the default",
"""
from docria import Document, DataTypes as T, Node
d = Document(); l = d.add_layer("t", a=T.int32(5))
l.add_many([Node(a=0)])
assert l[0]["a"] == 0
""")

S("C10-partial-doc", "C10", [("collection.py", "        self.currentblock.write(self.packer.pack(data))\n        self.current_block_count += 1\n",
                              "        self.currentblock.write(self.packer.pack(data))\n        self.current_block_count += 1\n        if self.currentblock.tell() > 65536:\n            self.flush()\n            return\n")],
  "never wrong: early flush", "unused", "raise SystemExit(0)")
SEEDS.pop()

S("C12-props-single", "C12", [("codec.py", """                k = next(unpacker)
                if k in prop_keys:
                    v = next(unpacker)
                    output[k] = v
                else:
                    unpacker.skip()

        # TODO""", """                k = next(unpacker)
                if k in prop_keys:
                    v = next(unpacker)
                    output[k] = v
                    if len(output) == len(props):
                        break
                else:
                    unpacker.skip()

        # TODO""")],
  "benign", "unused", "raise SystemExit(0)")
SEEDS.pop()

S("C12-layer-order", "C12", [("codec.py", "        layer_set = types if len(layers) == 0 else list(layers)", "        layer_set = [t for t in types if len(layers) == 0 or t in layers[0]]")],
  "choosing two layers, or one whose name is part of another's", "chosen layers are matched as substrings of the first",
"""
from docria import Document, DataTypes as T
from docria.codec import MsgpackDocument
d = Document(); d.add_layer("a", x=T.int32()).add(x=1); d.add_layer("b", x=T.int32()).add(x=2)
e = MsgpackDocument(d).document("a", "b")
assert set(e.layers) == {"a", "b"}
""")

S("C22-float-bool", "C22", [("model.py", "        if DataType._type2priority[self.typename] >= DataType._type2priority[dtype.typename]:", "        if DataType._type2priority[self.typename] >= DataType._type2priority[dtype.typename] or dtype.typename is DataTypeEnum.I64 and self.typename is not DataTypeEnum.BOOL:")],
  "merging a 32-bit with a 64-bit integer type in that order", "the narrower integer type wins",
"""
from docria import DataTypes as T
assert T.int32().cast_up(T.int64()).typename == T.int64().typename
""")

S("C23-tar-size", "C23", [("collection.py", "            if ti.isfile():\n", "            if ti.isfile() and ti.name.endswith(self.tarreader.firstmember.name[-5:]):\n")],
  "a tar whose first entry is a root directory", "documents below a root directory are skipped",
"""
import os, tempfile
from docria import Document
from docria.collection import TarMsgpackReader, TarMsgpackWriter
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.tar")
    with TarMsgpackWriter(f, rootdir="root", mode="w") as w:
        w.write(Document(i=1))
    with TarMsgpackReader(f, mode="r") as r:
        assert [x.properties()["i"] for x in r] == [1]
""")
