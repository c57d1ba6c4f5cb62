SEEDS = []
def S(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

S("C24-doc-cache", "C24", [("codec.py", '''        """Get fully decoded document"""
        self._parse_state(3)
''', '''        """Get fully decoded document"""
        if len(layers) == 0 and len(kwargs) == 0:
            if getattr(self, "_document", None) is None:
                self._document = self._decode_document()
            return self._document

        return self._decode_document(*layers, **kwargs)

    def _decode_document(self, *layers, **kwargs):
        self._parse_state(3)
''')],
  "decoding the same wrapped document twice and editing one of the results", "both are the same document",
"""
from docria import Document, DataTypes as T
from docria.codec import MsgpackDocument
d = Document(); d.add_layer("t", v=T.int32()).add(v=1)
w = MsgpackDocument(d)
a, b = w.document(), w.document()
a["t"].first()["v"] = 2
assert b["t"].first()["v"] == 1
""")

S("C24-state-props", "C24", [("model.py", '''            "msgpacked": MsgpackCodec.encode(self)
        }''', '''            "msgpacked": MsgpackCodec.encode(self),
            "props": self.props
        }'''), ("model.py", "        self.props = doc.props\n", "        self.props = state.get(\"props\", doc.props)\n")],
  "copy.copy of a document, whose properties are then edited", "the copy shares its properties with the original (deep copies and pickles do not)",
"""
import copy
from docria import Document
d = Document(a=1)
e = copy.copy(d)
e.props["a"] = 2
assert d.props["a"] == 1
""")

S("C24-commit-defaults", "C24", [("codec.py", '''            nt = NodeLayerSchema(typename)
            for col, typedef in schema[typename]:
                nt.add(col, typedef)

            layer = doc.add_layer(nt)
            for n in all_nodes[typename]:
                n.collection = layer

            layer.unsafe_initialize(all_nodes[typename])

        # Post-process layers
        for typename in types:''', '''            nt = NodeLayerSchema(typename)
            layer = doc.add_layer(nt)
            for col, typedef in schema[typename]:
                nt.add(col, typedef)

            for n in all_nodes[typename]:
                n.collection = layer

            layer.unsafe_initialize(all_nodes[typename])

        # Post-process layers
        for typename in types:''')],
  "adding a node without values to a layer of a decoded document whose schema has defaults", "the default values are not filled in after decoding from the binary format",
"""
from docria import Document, DataTypes as T
from docria.codec import MsgpackCodec
d = Document(); d.add_layer("t", v=T.int32(7)).add()
e = MsgpackCodec.decode(MsgpackCodec.encode(d))
n = e["t"].add()
assert n.get("v") == 7
""")

S("C25-extra-dropped", "C25", [("model.py", '''                    if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0:
''', '''                    if extra_fields_ok:
                        for extra in set(n.keys()).difference(fieldkeys):
                            del n[extra]

                    if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0:
''')],
  "encoding with extra fields allowed a document that has undeclared fields", "the undeclared fields are removed from the document itself",
"""
from docria import Document, DataTypes as T
from docria.codec import MsgpackCodec
d = Document(); n = d.add_layer("t", v=T.int32()).add(v=1)
n["extra"] = 5
MsgpackCodec.encode(d, extra_fields_ok=True)
assert n["extra"] == 5
""")

S("C25-column-setdefault", "C25", [("model.py", "        return map(lambda n: n.get(self.field), self.collection)", "        return map(lambda n: n.setdefault(self.field), self.collection)")],
  "reading a field column of a layer with nodes that have no value for the field", "those nodes get an explicit None, and the document can no longer be encoded",
"""
from docria import Document, DataTypes as T
from docria.codec import MsgpackCodec
d = Document(); l = d.add_layer("t", v=T.int32(None)); n = l.add()
list(l["v"])
assert "v" not in n
MsgpackCodec.encode(d)
""")

S("C25-full-slice", "C25", [("model.py", '''        return NodeList(iter(self), fieldtypes=self.fieldtypes)
''', '''        return self if isinstance(self, NodeList) else NodeList(iter(self), fieldtypes=self.fieldtypes)
'''), ("model.py", '''            return NodeList(iter(n for n in filter(None.__ne__, self._nodes[item])), fieldtypes=self._schema.fields)
''', '''            if item == slice(None) and self.num == len(self._nodes):
                return NodeList(self._nodes, fieldtypes=self._schema.fields) if self.num < 2 else self._all_nodes()

            return NodeList(iter(n for n in filter(None.__ne__, self._nodes[item])), fieldtypes=self._schema.fields)
'''), ("model.py", '''    def _ipython_key_completions_(self):
        return list(self.schema.fields.keys())

    def __delitem__(self, node''', '''    def _all_nodes(self):
        if not isinstance(self._nodes, NodeList):
            self._nodes = NodeList(self._nodes, fieldtypes=self._schema.fields)
        return self._nodes

    def _ipython_key_completions_(self):
        return list(self.schema.fields.keys())

    def __delitem__(self, node''')],
  "a full slice of a layer without gaps, which is then changed", "the slice is the layer's own list of nodes, so that changing it changes the layer",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", v=T.int32())
a = l.add(v=1); b = l.add(v=2)
x = l[:]
x.reverse()
assert list(l) == [a, b] and l[0] is a
""")

S("C26-falsy-skipped", "C26", [("model.py", '''                if field in n:
                    assert dtype.is_valid(n[field]), \\
''', '''                if n.get(field):
                    assert dtype.is_valid(n[field]), \\
''')],
  "an empty or zero value of the wrong type in a validated node list", "validating a node list accepts an empty value of the wrong type, which encoding refuses",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", v=T.int32()); n = l.add(v=1)
n["v"] = ""
try:
    l.to_list().validate()
    ok = True
except AssertionError:
    ok = False
assert not ok
""")

S("C26-removed-ref", "C26", [("model.py", '''        return isinstance(value, Node) and \\
               value.collection is not None and \\
               value.collection.name == self.options["layer"]
''', '''        return isinstance(value, Node) and \\
               value.collection.name == self.options["layer"]
''')],
  "a node that refers to a removed node", "asking whether the node is valid raises an error",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", r=T.noderef("t"))
a = l.add(); b = l.add(r=a)
a.detach()
assert b.is_valid() is False
""")

S("C26-verdict-kept", "C26", [("model.py", '''            try:
                return self.collection.validate(self)
            except AssertionError:
                return False
''', '''            try:
                state = (self.collection, len(self), tuple(map(id, self.values())))
                if getattr(self, "_verdict", None) != state:
                    if not self.collection.validate(self):
                        return False
                    self._verdict = state
                return True
            except AssertionError:
                return False
''')],
  "a valid node is asked, then a node it refers to is removed, then it is asked again", "the earlier verdict is repeated although the reference now dangles",
"""
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", r=T.noderef("t"))
a = l.add(); b = l.add(r=a)
assert b.is_valid()
a.detach()
assert not b.is_valid()
""")

S("C27-gap-rows", "C27", [("model.py", """            data = {k: [n.get(k) for n in filter(None.__ne__, self._nodes)] for k, v in fields}
""", """            data = {k: [n.get(k) for n in self._nodes[:self.num] if n is not None] for k, v in fields}
"""), ("model.py", """            data["__ref"] = list(filter(None.__ne__, self._nodes))
""", """            data["__ref"] = [n for n in self._nodes[:self.num] if n is not None]
""")],
  "a layer from which a node was removed that has not been compacted", "the last nodes are missing from the data frame",
"""
import sys, types
got = {}
class DataFrame:
    def __init__(self, data=None, **kw):
        got.update(data)
sys.modules["pandas"] = types.ModuleType("pandas"); sys.modules["pandas"].DataFrame = DataFrame
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", v=T.int32())
a, b, c = l.add(v=1), l.add(v=2), l.add(v=3)
l.remove(b)
l.to_pandas()
assert list(got["v"]) == [1, 3]
""")

S("C27-zero-missing", "C27", [("model.py", """                    data[field] = [n.get(field) for n in filter(None.__ne__, self._nodes)]
""", """                    data[field] = [n.get(field) or None for n in filter(None.__ne__, self._nodes)]
""")],
  "a data frame with materialized spans and a value that is zero or empty", "zero and empty values appear as missing",
"""
import sys, types
got = {}
class DataFrame:
    def __init__(self, data=None, **kw):
        got.update(data)
sys.modules["pandas"] = types.ModuleType("pandas"); sys.modules["pandas"].DataFrame = DataFrame
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", v=T.int32(5))
l.add(v=0)
l.to_pandas(materialize_spans=True)
assert list(got["v"]) == [0]
""")

S("C27-schema-options", "C27", [("model.py", """                    "" if len(fieldtype.options) == 0
                    else "[%s]" % ", ".join(map(lambda tup: "%s=%s" % tup, fieldtype.options.items()))
""", """                    "" if not any(fieldtype.options.values())
                    else "[%s]" % ", ".join(map(lambda tup: "%s=%s" % tup, fieldtype.options.items()))
""")],
  "a field whose default is zero", "the default is not printed",
"""
import contextlib, io
from docria import Document, DataTypes as T
d = Document(); d.add_layer("t", v=T.int32(0))
o = io.StringIO()
with contextlib.redirect_stdout(o):
    d.printschema()
assert "default=0" in o.getvalue()
""")
