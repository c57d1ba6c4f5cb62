SEEDS = []
def S(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

S("C05-far-neighbour", "C05", [("model.py", '''        for i in range(n.i + 1, len(self._nodes)):
            if self._nodes[i] is not None:
                return self._nodes[i]

        return None''', '''        # gaps stay below a quarter of the layer, so a neighbour is close
        for i in range(n.i + 1, min(n.i + 33, len(self._nodes))):
            if self._nodes[i] is not None:
                return self._nodes[i]

        return None''')],
  "more than 32 consecutive removed nodes in a large layer", "the right neighbour behind a long gap is not found",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", v=T.int32())
ns = [l.add(v=i) for i in range(200)]
l.remove(ns[10:50])
assert ns[9].right is ns[50]
""")

S("C08-any-set", "C08", [("query.py", '''        self.fld = field.field
        self.values = values
''', '''        self.fld = field.field
        # many values are faster to look up in a set
        self.values = frozenset(map(str, values)) if len(values) > 8 and all(isinstance(v, str) for v in values) else values
''')],
  "is_any on a span field with more than 8 strings", "spans whose text is one of many given strings are not found",
"""
from docria import Document, DataTypes as T
d = Document(); t = d.add_text("main", "ab")
l = d.add_layer("t", s=T.span("main"))
l.add(s=t[0:1]); l.add(s=t[1:2])
vals = list("acdefghijk")
assert len(l[l["s"].is_any(*vals)]) == 1
""")

S("C18-recursive", "C18", [("algorithm.py", '''    visited = set()
    stack = list()
    stack.append(start)

    while stack:
        current = stack.pop()
        if current in visited:
            continue

        visited.add(current)
        if is_result and is_result(current):
            yield current
        elif not is_result:
            yield current

        child_nodes = [ch for ch in children(current) if ch not in visited]
        child_nodes.reverse()
        stack.extend(child_nodes)
''', '''    visited = set()

    def visit(current):
        if current in visited:
            return

        visited.add(current)
        if is_result is None or is_result(current):
            yield current

        for child in children(current):
            yield from visit(child)

    yield from visit(start)
''')],
  "a chain of more than a thousand nodes", "depth-first traversal fails on deep graphs",
"""
from docria import Document, DataTypes as T
from docria.algorithm import dfs
d = Document(); l = d.add_layer("t", n=T.noderef("t"))
ns = [l.add() for i in range(3000)]
for a, b in zip(ns, ns[1:]):
    a["n"] = b
def ch(n):
    return [n["n"]] if "n" in n else []
assert len(list(dfs(ns[0], ch))) == 3000
""")

S("C01-num-nodes", "C01", [("codec.py", '''                    for n, v in zip(nodes, data):
                        if v is not None:
                            n[col] = v

                def ext_field(data):
                    types = typedef''', '''                    default = typedef.default()
                    for n, v in zip(nodes, data):
                        if v is not None:
                            n[col] = v
                        elif default is not None and len(data) > 256:
                            n[col] = default

                def ext_field(data):
                    types = typedef''')],
  "a layer of more than 256 nodes, one without a value of a field with a default", "absent values come back as the default",
"""
from docria import Document, DataTypes as T
from docria.codec import MsgpackCodec as M
d = Document(); l = d.add_layer("t", v=T.int32(7))
ns = [l.add(v=i) for i in range(300)]
del ns[280]["v"]
assert "v" not in M.decode(M.encode(d))["t"][280]
""")

S("C04-compact-chunk", "C04", [("model.py", '''        i = 0
        for k in range(0, len(self._nodes)):
            if self._nodes[k] is not None:
                self._nodes[i] = self._nodes[k]
                self._nodes[i]._id = i
                i += 1

        # Trim it''', '''        i = 0
        for first in range(0, len(self._nodes), 64):
            chunk = [n for n in self._nodes[first:first+64] if n is not None]
            if len(chunk) == 64 and first == i:
                continue  # nothing moved so far

            for n in chunk:
                self._nodes[i] = n
                n._id = i
                i += 1

        # Trim it''')],
  "a layer whose first 64 nodes are all there, and gaps after", "compacting loses the first nodes",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", v=T.int32())
ns = [l.add(v=i) for i in range(130)]
l.remove(ns[100])
l.compact()
assert [n["v"] for n in l] == [i for i in range(130) if i != 100]
""")

S("C09-block-count", "C09", [("collection.py", '''        if self.current_block_count == self.num_docs_per_block:
            self.flush()
''', '''        if self.current_block_count == self.num_docs_per_block or self.currentblock.tell() > 8 * 1024 * 1024:
            self.flush()
            self.current_block_count = self.num_docs_per_block
''')] if False else [("collection.py", '''        if self.block is None or self.block.position != ref[0]:
            self.seek(ref[0])
            self.block = self.readblock()
''', '''        if self.block is None or self.block.position != ref[0]:
            if self.block is None or ref[0] - self.block.position > 1 << 16 or ref[0] < self.block.position:
                self.seek(ref[0])
                self.block = self.readblock()
            else:
                # close by, so read on
                while self.block.position < ref[0]:
                    self.block = self.readblock()
''')],
  "a reference to a later block while a block further on was already read by readblock", "the search for the block runs past the end of the file",
"""
import io
from docria import Document
from docria import collection as c
f = io.BytesIO(); g = f.getvalue
class B(io.BytesIO):
    def close(self): pass
f = B()
w = c.MsgpackDocumentWriter(f, num_docs_per_block=1, codec=c.get_codec("none"))
for i in range(4):
    w.write(Document(i=i))
w.close()
r = c.MsgpackDocumentReader(B(f.getvalue()))
refs = [d.ref for d in c.MsgpackDocumentReader(B(f.getvalue()))]
first = next(r)
r.readblock(); r.readblock()
assert r.get(refs[1]).properties()["i"] == 1
""")

S("C13-range", "C13", [("collection.py", '''            all_hits.append(set(self.properties.get(k, {}).get(v, [])))
''', '''            hits = self.properties.get(k, {}).get(v, [])
            if len(hits) > 100:
                hits = range(hits[0], hits[-1] + 1) if hits[-1] - hits[0] == len(hits) else hits
            all_hits.append(set(hits))
''')],
  "a value that over 100 documents in a row have but for one in between", "a document without the value is found",
"""
import os, shutil, tempfile
from docria import Document
from docria import collection as c
p = tempfile.mkdtemp()
w = c.MsgpackDocumentWriter(p + "/a.docria")
for i in range(150):
    w.write(Document(a=1 if i != 60 else 2))
w.close()
ix = c.build_msgpack_fileindex(p + "/a.docria", "a")
got = len(list(ix.search({"a": 1}, lazy=True)))
shutil.rmtree(p)
assert got == 149
""")

S("C14-many-open", "C14", [("algorithm.py", '''                    for open_layer, open_node in open_nodes:
                        group_dict[open_layer].append(open_node)
''', '''                    for open_layer, open_node in open_nodes:
                        group_dict[open_layer].append(open_node)
                    if len(open_nodes) > 16:
                        # long spans would be carried along for ever
                        open_nodes = {e for e in open_nodes if e[1][layer_span_field[e[0]]].stop > nodes[0][0][0] + 1} | \\
                                     {e for e in open_nodes if e[1][layer_span_field[e[0]]].start == nodes[0][0][0]}
''')],
  "more than 16 nodes open where a group starts, one of which ends one character later", "removing a node that is not open any more fails",
"""
from docria import Document, DataTypes as T
from docria.algorithm import group_by_span
d = Document(); t = d.add_text("main", "x" * 100)
g = d.add_layer("g", text=T.span("main")); l = d.add_layer("t", text=T.span("main"))
g.add(text=t[20:30])
for i in range(20):
    l.add(text=t[i:21 + i])
r = group_by_span(list(g), {"t": l})
assert len(r) == 1 and len(r[0][1]["t"]) == 20
""")

S("C17-bisect", "C17", [("algorithm.py", '''    for n in layer_remap:
        if target_pos_remap not in n:
            sourceRemapStart''', '''    nodes_remap = list(layer_remap)
    if len(nodes_remap) > 16 and all(target_pos_remap in n for n in nodes_remap[:16]):
        nodes_remap = []  # translated before

    for n in nodes_remap:
        if target_pos_remap not in n:
            sourceRemapStart''')],
  "more than 16 spans of which the first 16 are already translated", "the others are not translated",
"""
from docria import Document, DataTypes as T
from docria.algorithm import span_translate
d = Document(); a = d.add_text("a", "x" * 100); b = d.add_text("b", "x" * 100)
m = d.add_layer("m", t=T.span("a"), s=T.span("b")); m.add(t=a[0:100], s=b[0:100])
l = d.add_layer("l", t=T.span("a"), s=T.span("b"))
for i in range(16):
    l.add(t=a[i:i + 1], s=b[i:i + 1])
n = l.add(s=b[40:42])
span_translate(d, "m", ("t", "s"), "l", ("s", "t"))
assert (n["t"].start, n["t"].stop) == (40, 42)
""")

S("C20-many-nodes", "C20", [("codec.py", '''        DataTypeEnum.NODEREF_MANY: lambda v: [str(n._id) for n in v],
        DataTypeEnum.NODEREF_SPAN''', '''        DataTypeEnum.NODEREF_MANY: lambda v: [str(n._id) for n in v] if len(v) < 64
        else list(map(str, sorted({n._id for n in v}))),
        DataTypeEnum.NODEREF_SPAN''')],
  "a reference list of 64 entries or more that is not in layer order", "the order of the references is lost",
"""
from docria import Document, DataTypes as T
from docria.codec import XmlCodec
d = Document(); l = d.add_layer("t", r=T.noderef_many("t"))
ns = [l.add() for i in range(70)]
ns[0]["r"] = ns[::-1]
x = XmlCodec.encode_tree(d).getroot()
assert [e.get("v") for e in x.iter("e")] == [str(i) for i in range(69, -1, -1)]
""")

S("C12-props-sorted", "C12", [("codec.py", '''            prop_keys = set(props)
            output = dict()

            num_entries = unpacker.read_map_header()
            for i in range(num_entries):
                k = next(unpacker)
                if k in prop_keys:
                    v = next(unpacker)
                    output[k] = v
                else:
                    unpacker.skip()
''', '''            prop_keys = set(props)
            output = dict()

            num_entries = unpacker.read_map_header()
            for i in range(num_entries):
                k = next(unpacker)
                if k in prop_keys:
                    v = next(unpacker)
                    output[k] = v
                    if len(output) == len(props):
                        break
                else:
                    unpacker.skip()

            if len(output) < len(prop_keys) and num_entries > 15:
                output.update({k: None for k in prop_keys - set(output)})
''')],
  "asking a document with more than 15 properties for one it does not have", "a property appears that the document does not have",
"""
from docria import Document
from docria.codec import MsgpackCodec, MsgpackDocument
d = Document(**{"p%d" % i: i for i in range(20)})
assert MsgpackDocument(MsgpackCodec.encode(d)).properties("p1", "zz") == {"p1": 1}
""")

S("C25-format-cache", "C25", [("model.py", '''        for v in self:
            table.add_body(TableRow(v))

        return table
''', '''        if isinstance(self.collection, NodeLayerCollection) and len(self) > 100:
            self.collection.compact()

        for v in self:
            table.add_body(TableRow(v))

        return table
''')] if False else [("model.py", '''        for n in nodes:
            if n.collection is not self:
                raise ValueError("Node %s is not in this node collection '%s'" % (repr(n), self.name))

        # Mark''', '''        for n in nodes:
            if n.collection is not self:
                raise ValueError("Node %s is not in this node collection '%s'" % (repr(n), self.name))

        if len(nodes) > 64 and len(nodes) == self.num:
            return  # all of them

        # Mark''')],
  "retaining a list of over 64 nodes as long as the layer, in which one occurs twice", "nothing is removed",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", v=T.int32())
ns = [l.add(v=i) for i in range(100)]
l.retain(ns[1:] + [ns[5]])
assert len(l) == 99
""")
SEEDS[-1]["id"], SEEDS[-1]["prop"] = "C04-retain-all", "C04"
