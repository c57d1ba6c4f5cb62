From c3133e145e76baf7b114e39d5f63ac0f4d1c46d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:33 +0000
Subject: [PATCH 01/72] fix: refuse indices and ranges outside a text span

---
 py/docria/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index b1bb0af..83a3136 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -617,9 +617,15 @@ class TextSpan:
             start, stop, step = indx.indices(len(self))
             return self.text[start + self.start:stop + self.start]
         elif isinstance(indx, tuple) and len(indx) == 2:
+            if not 0 <= indx[0] <= indx[1] <= len(self):
+                raise DataValidationError("Invalid range: [%d, %d), span length: %d" % (indx[0], indx[1], len(self)))
+
             return self.text[indx[0] + self.start:indx[1] + self.start]
         elif isinstance(indx, int):
-            start, stop, step = slice(indx, indx + 1).indices(len(self))
+            if not -len(self) <= indx < len(self):
+                raise IndexError("Span index out of range: %d, span length: %d" % (indx, len(self)))
+
+            start, stop, step = slice(indx, None).indices(len(self))
             return self.text.text[start + self.start]
         else:
             raise ValueError("Unsupported input indx: %s" % repr(indx))
-- 
2.43.0


From acd48dab6cbad0e5add387e3eb53433354b90b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 02/72] fix: trim both ends of a text span

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 83a3136..1427dce 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -691,7 +691,7 @@ class TextSpan:
                     break
 
                 new_start += 1
-        elif str.isspace(self.text.text[self.stop - 1]):
+        if str.isspace(self.text.text[self.stop - 1]):
             # move backward
             for i in range(len(self) - 1, -1, -1):
                 if not str.isspace(self.text.text[new_stop - 1]):
-- 
2.43.0


From 005e28892e710fee9d27c633df7ac852fe3dc38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:20 +0000
Subject: [PATCH 03/72] fix: keep start_offset and stop_offset in step with an
 in-place trim

---
 py/docria/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 1427dce..532decd 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -720,6 +720,7 @@ class TextSpan:
         offs = self._trim_offsets()
         if offs is not None:
             self._start, self._stop = offs
+            self.start_offset, self.stop_offset = offs
 
         return self
 
-- 
2.43.0


From ed123e1385806104476068f0c0f71a87df1691d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 04/72] fix: representation of a node that belongs to no layer

---
 py/docria/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 532decd..d1ec5a5 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -179,7 +179,9 @@ class Node(dict):
     def _table_repr_(self):
         from docria.printout import Table, get_representation
         tbl = Table(hide_index=True,
-                    caption="Node %s#%d" % (self.collection.schema.name, self._id) if len(self) > 0 else "")
+                    caption="" if len(self) == 0 else
+                    "Dangling node" if self.collection is None else
+                    "Node %s#%d" % (self.collection.schema.name, self._id))
 
         tbl.set_header("field", "value")
 
@@ -193,6 +195,9 @@ class Node(dict):
         return tbl.render_html()
 
     def __repr__(self):
+        if self.collection is None:
+            return "Node<dangling>"
+
         return "Node<%s#%d>" % (self.collection.schema.name, self._id) if len(self) > 0 else ""
 
 
-- 
2.43.0


From 1453bf9d9e212416c9c2142f7b07244c58d9e873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 05/72] fix: retain on layers with gaps and with foreign nodes

---
 py/docria/model.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index d1ec5a5..e7debe1 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1602,22 +1602,27 @@ class NodeLayerCollection(NodeCollection):
         """Retain all nodes in the given list nodes, remove everything else."""
 
         try:
-            for n in iter(nodes):
-                # Mark the nodes to retain
-                if n.collection is not self:
-                    raise ValueError("Node %s is not in this node collection '%s'" % (repr(n), self.name))
-
-                # Guards against more than one reference to a node in nodes
-                if n._id >= 0:
-                    n._id = -(n._id + 1)  # add 1, otherwise zero fails.
-
+            nodes = list(nodes)
         except TypeError:
             raise ValueError("Given nodes is not iterable.")
 
+        for n in nodes:
+            if n.collection is not self:
+                raise ValueError("Node %s is not in this node collection '%s'" % (repr(n), self.name))
+
+        # Mark the nodes to retain
+        for n in nodes:
+            # Guards against more than one reference to a node in nodes
+            if n._id >= 0:
+                n._id = -(n._id + 1)  # add 1, otherwise zero fails.
+
         # Compact and remove unmarked nodes
         k = 0
         for i in range(len(self._nodes)):
             n = self._nodes[i]
+            if n is None:
+                continue
+
             if n._id >= 0:
                 n.collection = None
                 self.num -= 1
-- 
2.43.0


From 65ffd8827c9e0fdbd5f9a21e4349d7c50c1edec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 06/72] fix: refuse to add a node that is already in a layer

---
 py/docria/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index e7debe1..c2db2d9 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1472,6 +1472,8 @@ class NodeLayerCollection(NodeCollection):
         if len(args) > 0:
             for n in args:
                 if isinstance(n, Node):
+                    assert n.collection is None, "Node is already bound to a collection: %s" % repr(n.collection)
+
                     n._id = len(self._nodes)
                     n.collection = self
                     self._nodes.append(n)
-- 
2.43.0


From 594c37f55fdf0b1d5856fc827e3dedb9af2b11ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 07/72] fix: nodes without a value do not match ordering and
 span filters

---
 py/docria/model.py |  4 ++--
 py/docria/query.py | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index c2db2d9..6534344 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -340,7 +340,7 @@ class NodeFieldCollection(Sized):
         assert self.dtype.typename == DataTypeEnum.SPAN, "Not a textspan field: %s" % repr(self)
         assert len(range) == 2, "range should be tuple of (start, stop)"
         cover_span = tuple(range)
-        return self.filter(lambda span: span.covered_by(cover_span))
+        return self.filter(lambda span: span is not None and span.covered_by(cover_span))
 
     def intersected_by(self, *range):
         """
@@ -352,7 +352,7 @@ class NodeFieldCollection(Sized):
         assert self.dtype.typename == DataTypeEnum.SPAN, "Not a textspan field: %s" % repr(self)
         assert len(range) == 2, "range should be tuple of (start, stop)"
         cover_span = tuple(range)
-        return self.filter(lambda span: span.intersected_by(cover_span))
+        return self.filter(lambda span: span is not None and span.intersected_by(cover_span))
 
     def __gt__(self, other):
         return NodeFieldPredicateGt(self, other)
diff --git a/py/docria/query.py b/py/docria/query.py
index def2e67..2c3b681 100644
--- a/py/docria/query.py
+++ b/py/docria/query.py
@@ -124,7 +124,8 @@ class NodeFieldPredicateLe(NodePredicate):
         self.le = le
 
     def __call__(self, n: "Node"):
-        return n.get(self.fld) <= self.le
+        value = n.get(self.fld)
+        return value is not None and value <= self.le
 
     def __repr__(self):
         return "({%s} <= %s)" % (self.fld, repr(self.le))
@@ -136,7 +137,8 @@ class NodeFieldPredicateLt(NodePredicate):
         self.lt = lt
 
     def __call__(self, n: "Node"):
-        return n.get(self.fld) < self.lt
+        value = n.get(self.fld)
+        return value is not None and value < self.lt
 
     def __repr__(self):
         return "({%s} < %s)" % (self.fld, repr(self.lt))
@@ -148,7 +150,8 @@ class NodeFieldPredicateGe(NodePredicate):
         self.ge = ge
 
     def __call__(self, n: "Node"):
-        return n.get(self.fld) >= self.ge
+        value = n.get(self.fld)
+        return value is not None and value >= self.ge
 
     def __repr__(self):
         return "({%s} > %s)" % (self.fld, repr(self.ge))
@@ -160,7 +163,8 @@ class NodeFieldPredicateGt(NodePredicate):
         self.gt = gt
 
     def __call__(self, n: "Node"):
-        return n.get(self.fld) > self.gt
+        value = n.get(self.fld)
+        return value is not None and value > self.gt
 
     def __repr__(self):
         return "({%s} > %s)" % (self.fld, repr(self.gt))
-- 
2.43.0


From 66f9f4be18a9d111a06ffb50ec9a0db7c4398d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 08/72] fix: field columns of queries on node lists, spans and
 queries

---
 py/docria/model.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 6534344..175ec6e 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1276,17 +1276,14 @@ class NodeCollectionQuery(NodeCollection):
         return len(self.result)
 
     def __getitem__(self, item):
-        if isinstance(item, str):
-            if item in self.collection.schema.fields:
-                return NodeFieldCollection(self, item)
-        else:
-            return super().__getitem__(item)
+        return super().__getitem__(item)
 
     def update(self):
         self.result = [n for n in self.collection if self.predicate(n)]
 
     def __repr__(self):
-        return "NodeCollectionQuery(collection=%s, N=%d)" % (self.collection.name, len(self))
+        return "NodeCollectionQuery(collection=%s, N=%d)" % (
+            getattr(self.collection, "name", None) or repr(self.collection), len(self))
 
     def _repr_html_(self):
         return self._table_repr_("Query with %d nodes.").render_html()
-- 
2.43.0


From 2197d128837f5932e29778ed4ab3ccf5e0676ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:48 +0000
Subject: [PATCH 09/72] fix: is_any compares by equality, as == does

---
 py/docria/model.py | 2 +-
 py/docria/query.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 175ec6e..44e35fd 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -328,7 +328,7 @@ class NodeFieldCollection(Sized):
         :param item: the items to verify against
         :return: is any predicate
         """
-        return NodeFieldPredicateContains(self, set(item))
+        return NodeFieldPredicateContains(self, item)
 
     def covered_by(self, *range):
         """
diff --git a/py/docria/query.py b/py/docria/query.py
index 2c3b681..bda0855 100644
--- a/py/docria/query.py
+++ b/py/docria/query.py
@@ -15,7 +15,7 @@
 # limitations under the License.
 #
 """Internal functionality for queries"""
-from typing import Set, TYPE_CHECKING
+from typing import Tuple, TYPE_CHECKING
 if TYPE_CHECKING:
     from .model import Node, NodeFieldCollection
 
@@ -83,7 +83,7 @@ class NodePredicateAnd(NodePredicate):
 
 
 class NodeFieldPredicateContains(NodePredicate):
-    def __init__(self, field: "NodeFieldCollection", values: Set[any]):
+    def __init__(self, field: "NodeFieldCollection", values: Tuple[any]):
         self.fld = field.field
         self.values = values
 
-- 
2.43.0


From 4cffbc749a221b2d314ca5a9f37cc73baba3be6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:52 +0000
Subject: [PATCH 10/72] fix: check types and undeclared fields independently

---
 py/docria/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 44e35fd..4bcd7e1 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1998,9 +1998,10 @@ class Document:
             validate_fn = v.validate
 
             # Validate nodes
-            if type_validation and not extra_fields_ok:
+            if type_validation or not extra_fields_ok:
                 for n in v:
-                    validate_fn(n)
+                    if type_validation:
+                        validate_fn(n)
 
                     if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0:
                         raise SchemaValidationError(
-- 
2.43.0


From 450527627d1094cfaf5024e493b4ca039eaf10ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:52 +0000
Subject: [PATCH 11/72] fix: add_many validates nodes given by an iterator

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 4bcd7e1..b13a585 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1511,7 +1511,7 @@ class NodeLayerCollection(NodeCollection):
             self.num += 1
 
         if full_validation:
-            for node in nodes:
+            for node in self._nodes[start_pos:]:
                 assert self.validate(node), "Node not valid"
 
         if default_fill and len(self._default_values) > 0:
-- 
2.43.0


From d2a68a0127d9965e96e4359e061ccc3e45b898e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:13 +0000
Subject: [PATCH 12/72] fix: decoded schemas validate values as the original
 does

---
 py/docria/codec.py | 10 +++++-----
 py/docria/model.py | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 5293445..5db61fa 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -15,7 +15,7 @@
 # limitations under the License.
 #
 """Codecs, encoding/decoding documents to/from binary or text representations"""
-from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, Node, ExtData, NodeSpan
+from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, DataTypes, Node, ExtData, NodeSpan
 import msgpack
 import json
 import logging
@@ -221,10 +221,10 @@ class JsonCodec:
                 if isinstance(typedef, dict): # Advanced type
                     ttype = String2DataType[typedef["type"]]
                     args = typedef["args"]
-                    fields.append((fieldname, DataType(ttype, **args)))
+                    fields.append((fieldname, DataTypes.create(ttype, **args)))
                 elif isinstance(typedef, str): # Simple type
                     ttype = String2DataType[typedef]
-                    fields.append((fieldname, DataType(ttype)))
+                    fields.append((fieldname, DataTypes.create(ttype)))
                 else:
                     raise DataError("Could not decode layer %s field types, " \
                                     "failed on field %s. Got data: %s" % (typename, fieldname, repr(typedef)))
@@ -705,9 +705,9 @@ class MsgpackCodec:
 
                 if has_args:
                     fieldargs = next(unpacker)
-                    fields.append((fieldname, DataType(ttype, **fieldargs)))
+                    fields.append((fieldname, DataTypes.create(ttype, **fieldargs)))
                 else:
-                    fields.append((fieldname, DataType(ttype)))
+                    fields.append((fieldname, DataTypes.create(ttype)))
 
                 nl.add(fieldname, fields[-1][1])
 
diff --git a/py/docria/model.py b/py/docria/model.py
index b13a585..a0174d1 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1078,6 +1078,20 @@ class DataTypeNoderefList(DataType):
                all(map(lambda n: n.collection is not None and n.collection.name == target_layer, value))
 
 
+_typename2datatype = {
+    DataTypeEnum.I32: DataTypeInt32,
+    DataTypeEnum.I64: DataTypeInt64,
+    DataTypeEnum.F64: DataTypeFloat,
+    DataTypeEnum.BOOL: DataTypeBool,
+    DataTypeEnum.STRING: DataTypeString,
+    DataTypeEnum.BINARY: DataTypeBinary,
+    DataTypeEnum.NODEREF: DataTypeNoderef,
+    DataTypeEnum.NODEREF_MANY: DataTypeNoderefList,
+    DataTypeEnum.SPAN: DataTypeTextspan,
+    DataTypeEnum.NODEREF_SPAN: DataTypeNodespan
+}
+
+
 class DataTypes:
     """Layer field type factory"""
     _float64 = DataTypeFloat(DataTypeEnum.F64, default=0)
@@ -1181,6 +1195,11 @@ class DataTypes:
     def ext(typename):
         return DataType(DataTypeEnum.EXT, type=typename)
 
+    @staticmethod
+    def create(typename: DataTypeEnum, **kwargs) -> DataType:
+        """Create the data type for a type name and its options, used when decoding a schema"""
+        return _typename2datatype.get(typename, DataType)(typename, **kwargs)
+
     @staticmethod
     def matches(o, expected):
         return isinstance(o, expected) if expected is not None else None
-- 
2.43.0


From 64968fa58ec002e88bf479be0bbe5f2f0cdc92b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:14 +0000
Subject: [PATCH 13/72] fix: refuse to encode a document with a node that fails
 validation

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index a0174d1..ad4ce08 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -2020,7 +2020,7 @@ class Document:
             if type_validation or not extra_fields_ok:
                 for n in v:
                     if type_validation:
-                        validate_fn(n)
+                        assert validate_fn(n), "Node not valid: %s" % repr(n)
 
                     if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0:
                         raise SchemaValidationError(
-- 
2.43.0


From eb2c38634aa6d5cfd3b3a4a006e4c9f218b4ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 14/72] fix: XML export of binary values

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 5db61fa..c32c260 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -902,7 +902,7 @@ class XmlCodec:
         DataTypeEnum.F64: lambda v: str(float(v)),
         DataTypeEnum.BOOL: lambda v: str(bool(v)),
         DataTypeEnum.STRING: lambda v: XmlCodec._string_encoder(v),
-        DataTypeEnum.BINARY: lambda v: standard_b64encode(bytes(v)),
+        DataTypeEnum.BINARY: lambda v: standard_b64encode(bytes(v)).decode("ascii"),
         DataTypeEnum.NODEREF: lambda v: str(v._id),
         DataTypeEnum.NODEREF_MANY: lambda v: [str(n._id) for n in v],
         DataTypeEnum.NODEREF_SPAN: lambda v: v
-- 
2.43.0


From 61fee8457a927152ce466bfce0155e05080f72d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:54 +0000
Subject: [PATCH 15/72] fix: default values of float, string and boolean types

---
 py/docria/model.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index ad4ce08..74f64b0 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1002,6 +1002,8 @@ class DataTypeFloat(DataType):
     """64 bit floating point (double) field type"""
 
     def __init__(self, typename: DataTypeEnum, **kwargs):
+        if kwargs.get("default") is not None:
+            kwargs["default"] = float(kwargs["default"])
         super().__init__(typename, **kwargs)
 
     def is_valid(self, value) -> bool:
@@ -1094,7 +1096,7 @@ _typename2datatype = {
 
 class DataTypes:
     """Layer field type factory"""
-    _float64 = DataTypeFloat(DataTypeEnum.F64, default=0)
+    _float64 = DataTypeFloat(DataTypeEnum.F64, default=0.0)
     _float64_raw = DataTypeFloat(DataTypeEnum.F64)
     _int32 = DataTypeInt32(DataTypeEnum.I32, default=0)
     _int32_raw = DataTypeInt32(DataTypeEnum.I32)
@@ -1131,7 +1133,7 @@ class DataTypes:
         elif default is None:
             return DataTypes._float64_raw
         else:
-            return DataTypeFloat(DataTypeEnum.F64, default=0.0)
+            return DataTypeFloat(DataTypeEnum.F64, default=default)
 
     @staticmethod
     def string(default: Optional[str] = ""):
@@ -1140,16 +1142,16 @@ class DataTypes:
         elif default is None:
             return DataTypes._string_raw
         else:
-            return DataType(DataTypeEnum.STRING, default=default)
+            return DataTypeString(DataTypeEnum.STRING, default=default)
 
     @staticmethod
     def bool(default: Optional[bool] = False):
-        if default == "":
-            return DataTypes._string
-        elif default is None:
+        if default is None:
             return DataTypes._bool_raw
+        elif default is False:
+            return DataTypes._bool
         else:
-            return DataType(DataTypeEnum.BOOL, default=default)
+            return DataTypeBool(DataTypeEnum.BOOL, default=default)
 
     boolean = bool
 
-- 
2.43.0


From 6a0307769c55d2b72c5035f2453e533c9a8fbc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 16/72] fix: encode byte strings in properties as binary values

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index c32c260..91716c1 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -610,7 +610,7 @@ class MsgpackCodec:
         out_props = BytesIO()
 
         # TODO: Implement extension handling!
-        msgpack.pack(doc.props, out_props)
+        msgpack.pack(doc.props, out_props, use_bin_type=True)
 
         msgpack.pack(out_props.tell(), output)
         output.write(out_props.getbuffer()[0:out_props.tell()])
-- 
2.43.0


From 4da8b3cd15e8050aba6ce4b28084ccfc542a6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:49 +0000
Subject: [PATCH 17/72] fix: reading across several boundaries

---
 py/docria/collection.py | 45 +++++++++++------------------------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index e30fe31..303bfb5 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -39,7 +39,6 @@ def _module_available(name):
 
 
 class _BoundaryReader(RawIOBase):
-    """Note: Seek is not ready for prime time yet, unresolved bugs."""
     def __init__(self, inputio):
         super().__init__()
 
@@ -75,48 +74,28 @@ class _BoundaryReader(RawIOBase):
         return offset
 
     def read(self, n=-1):
-        abs_start_position = ((self.offset + 1) >> self.boundary)*4+(self.offset + 1)
-        if n == -1:
-            alldata = self.inputio.read(n)
-            abs_stop_position = abs_start_position + len(alldata)
+        abs_start_position = self._to_absolute(self.offset)
+        if n is None or n < 0:
+            alldata = self.inputio.read()
         else:
-            abs_stop_position = ((self.offset + n + 1) >> self.boundary)*4+(self.offset + n + 1)
-            alldata = self.inputio.read(abs_stop_position-abs_start_position)
-            abs_stop_position = abs_start_position + len(alldata)
+            alldata = self.inputio.read(self._to_absolute(self.offset + n) - abs_start_position)
 
-        if len(alldata) == 0:
-            return alldata
-
-        if (abs_start_position >> self.boundary) << self.boundary == abs_start_position:
-            abs_start_position += 4
-
-        num_boundaries = (abs_stop_position >> self.boundary) - (abs_start_position >> self.boundary)
-        real_length = abs_stop_position-abs_start_position-num_boundaries*4
-
-        if (abs_stop_position >> self.boundary) << self.boundary == abs_stop_position:
-            real_length -= 4
-
-        output = bytearray(real_length)
-
-        output_position = 0
+        output = bytearray()
         rel_position = 0
-        current_position = abs_start_position
 
-        while current_position < abs_stop_position:
-            max_read = min(((current_position >> self.boundary) + 1) << self.boundary, abs_stop_position)-current_position
+        while rel_position < len(alldata):
+            current_position = abs_start_position + rel_position
+            max_read = (((current_position >> self.boundary) + 1) << self.boundary) - current_position
 
-            output[output_position:output_position+max_read] = alldata[rel_position:rel_position+max_read]
-            rel_position += 4 + max_read
-            current_position += max_read + 4
-            output_position += max_read
+            output += alldata[rel_position:rel_position+max_read]
+            rel_position += max_read + 4
 
-        assert output_position == real_length
-        self.offset += real_length
+        self.offset += len(output)
 
         return bytes(output)
 
     def tell(self):
-        return self.inputio.tell()-(self.inputio.tell() >> self.boundary)*4-1
+        return self.offset
 
     def readable(self):
         return True
-- 
2.43.0


From bbd5015fcaa97440bb6964cb4f6500bb1c2059a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:50 +0000
Subject: [PATCH 18/72] fix: reference of documents read after another block
 was read

---
 py/docria/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 303bfb5..2ea4255 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -377,7 +377,7 @@ class MsgpackDocumentReader:
             if doc is None:
                 self.block = None
             else:
-                return MsgpackDocument(doc, ref=(self._lastblockpos, start))
+                return MsgpackDocument(doc, ref=(self.block.position, start))
 
         while self.block is None:
             datablock = self.readblock()
@@ -390,7 +390,7 @@ class MsgpackDocumentReader:
             if doc is None:
                 self.block = None
             else:
-                return MsgpackDocument(doc, ref=(self._lastblockpos, start))
+                return MsgpackDocument(doc, ref=(self.block.position, start))
 
     def close(self):
         self.inputio.close()
-- 
2.43.0


From 44542f334fb2d05cd71c132e5e70b4a58589c81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:17 +0000
Subject: [PATCH 19/72] fix: decode only the layers that were asked for

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 91716c1..7df803b 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -497,7 +497,7 @@ class MsgpackDocument:
             layerschema = schema[typename]
             all_nodes[typename] = MsgpackCodec.decode_layer(unpacker, doc, typename, text2offsets, layerschema, **kwargs)
 
-        Codec.commit_layers(doc, types, schema, all_nodes)
+        Codec.commit_layers(doc, layer_set, schema, all_nodes)
         return doc
 
 
-- 
2.43.0


From 3677cd6362b133ebc56d6c86a73e538f620caa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:18 +0000
Subject: [PATCH 20/72] fix: read the texts that were asked for

---
 py/docria/codec.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 7df803b..1ee5aa2 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -720,19 +720,19 @@ class MsgpackCodec:
         if len(texts) == 0:
             return next(unpacker)
         else:
-            texts = {}
+            output = {}
 
-            prop_keys = set(texts)
+            text_keys = set(texts)
             num_entries = unpacker.read_map_header()
             for i in range(num_entries):
                 k = next(unpacker)
-                if k in prop_keys:
+                if k in text_keys:
                     v = next(unpacker)
-                    texts[k] = v
+                    output[k] = v
                 else:
                     unpacker.skip()
 
-            return texts
+            return output
 
     @staticmethod
     def compute_text_offsets(doc, texts):
-- 
2.43.0


From 75ce0595b86a9db5d4b05c6c55f08a065a63dd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:18 +0000
Subject: [PATCH 21/72] fix: keep the reference of a pickled document

---
 py/docria/codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 1ee5aa2..0a6e631 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -398,6 +398,7 @@ class MsgpackDocument:
         return {"doc": self.rawdata.getvalue(), "ref": self.ref}
 
     def __setstate__(self, state):
+        self.ref = state["ref"]
         self.rawdata = BytesIO(state["doc"])
         if self.rawdata.read(4) != b"DM_1":
             raise ValueError("Magic bytes is not DM_1")
-- 
2.43.0


From 28d2dd6c7fa56ca74c2a20b20cee62f71cc41e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:19 +0000
Subject: [PATCH 22/72] fix: bytes of an encoded document that is read from a
 file

---
 py/docria/codec.py      | 5 +++--
 py/docria/collection.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 0a6e631..4c078cb 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -395,7 +395,7 @@ class MsgpackDocument:
         self._layers = None
 
     def __getstate__(self):
-        return {"doc": self.rawdata.getvalue(), "ref": self.ref}
+        return {"doc": self.binary(), "ref": self.ref}
 
     def __setstate__(self, state):
         self.ref = state["ref"]
@@ -449,7 +449,8 @@ class MsgpackDocument:
 
     def binary(self)->bytes:
         """Get this document as binary value"""
-        return self.rawdata.getvalue()
+        self.rawdata.seek(0)
+        return self.rawdata.read()
 
     def properties(self, *props):
         """Get document properties"""
diff --git a/py/docria/collection.py b/py/docria/collection.py
index 2ea4255..c26bf5e 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -475,7 +475,7 @@ class MsgpackDocumentWriter:
         if isinstance(doc, Document):
             data = MsgpackCodec.encode(doc, **kwargs)
         elif isinstance(doc, MsgpackDocument):
-            data = doc.rawdata.getvalue()
+            data = doc.binary()
         else:
             raise ValueError("Got unsupported doc, only Document and MsgpackDocument allowed")
 
@@ -591,7 +591,7 @@ class TarMsgpackWriter:
         if isinstance(doc, Document):
             data = MsgpackCodec.encode(doc)
         elif isinstance(doc, MsgpackDocument):
-            data = doc.rawdata.getvalue()
+            data = doc.binary()
         else:
             raise ValueError("Got unsupported doc, only Document and MsgpackDocument allowed")
 
-- 
2.43.0


From e90685cd1a4346ae97510cfb8d49f2594f21c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:49 +0000
Subject: [PATCH 23/72] fix: group_by_span ignores nodes whose span is None

---
 py/docria/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index a9e1a36..2aa0f46 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -320,7 +320,7 @@ def group_by_span(group_nodes: List[Node],
 
     # 1. Convert all nodes to Start, Stop symbols with added context information
     for group_node in group_nodes:
-        if group_span_field in group_node:
+        if group_node.get(group_span_field) is not None:
             span = group_node[group_span_field]  # type: TextSpan
 
             if span.start == span.stop:
@@ -338,7 +338,7 @@ def group_by_span(group_nodes: List[Node],
             raise KeyError("Could not find span property name for layer: %s" % layer_name) from e
 
         for layer_node in layer:
-            if span_name in layer_node:
+            if layer_node.get(span_name) is not None:
                 span = layer_node[span_name]  # type: TextSpan
 
                 if span.start == span.stop:
-- 
2.43.0


From 2f88927138e3b107bc894775fa8fb44ad0dffae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:39 +0000
Subject: [PATCH 24/72] fix: dominant_right_span ignores nodes whose span is
 None

---
 py/docria/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index 2aa0f46..2d4d6b8 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -460,7 +460,7 @@ def dominant_right_span(nodes: Iterable[Node], spanfield: str="text")->List[Node
     :param spanfield: the name of the spanfield
     :return: list of nodes
     """
-    segments = [(n[spanfield].start, n[spanfield].stop, n) for n in nodes if spanfield in n]
+    segments = [(n[spanfield].start, n[spanfield].stop, n) for n in nodes if n.get(spanfield) is not None]
     return dominant_right(segments)
 
 
-- 
2.43.0


From 5f7e19115fd356c323a5b74ae91d0ebc257f2f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:57 +0000
Subject: [PATCH 25/72] fix: children_of with several fields

---
 py/docria/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index 2d4d6b8..e535d30 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -62,8 +62,8 @@ def children_of(layer: NodeLayerCollection, *props):
     def compose(yielders):
         def yielder(n: Node):
             for yielder in yielders:
-                for n in yielder(n):
-                    yield n
+                for child in yielder(n):
+                    yield child
 
         return yielder
 
-- 
2.43.0


From fc6fe9c984c8da67ef12d81c686e401722527e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:57 +0000
Subject: [PATCH 26/72] fix: dfs_leaves only reports nodes without children

---
 py/docria/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index e535d30..b0d5997 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -183,7 +183,7 @@ def dfs_leaves(start: Node,
 
         visited.add(current)
 
-        child_nodes = [ch for ch in children(current) if ch not in visited]
+        child_nodes = list(children(current))
         child_nodes.reverse()
 
         if not child_nodes and is_result and is_result(current):
@@ -191,7 +191,7 @@ def dfs_leaves(start: Node,
         elif not child_nodes and not is_result:
             yield current
 
-        stack.extend(child_nodes)
+        stack.extend(ch for ch in child_nodes if ch not in visited)
 
 
 def span_translate(doc: Document,
-- 
2.43.0


From 66e2da842e9bad6f86c1048505df0e0a879469d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 27/72] fix: error raised when an existing field is added

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 74f64b0..ff7b31d 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1353,7 +1353,7 @@ class NodeLayerCollection(NodeCollection):
         :raises SchemaValidationError if the field conflicts with existing field
         """
         if name in self._schema.fields:
-            raise SchemaValidationError("Cannot add field %s, it already exists!" % name)
+            raise SchemaValidationError("Cannot add field %s, it already exists!" % name, [name])
 
         self._schema.add(name, dtype)
         self._update_default_values()
-- 
2.43.0


From d553512f7499324e94415bf88b64e47811b35b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 28/72] fix: add_field with a type factory

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index ff7b31d..7500528 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1360,7 +1360,7 @@ class NodeLayerCollection(NodeCollection):
 
         if init_with_default:
             # Set all current values to the default
-            defaultvalue = dtype.default()
+            defaultvalue = self._schema.fields[name].default()
             if defaultvalue is not None:
                 for n in self:
                     n[name] = defaultvalue
-- 
2.43.0


From 592f4e77ebbb997ec0bca050d43a8365bccdc56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:13 +0000
Subject: [PATCH 29/72] fix: remove_layer considers node span fields

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 7500528..c0851f2 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1887,7 +1887,7 @@ class Document:
         for k, v in self.layers.items():
             if k != name:
                 for fk, fv in v.schema.fields.items():
-                    if fv.typename == DataTypeEnum.NODEREF or fv.typename == DataTypeEnum.NODEREF_MANY:
+                    if fv.typename in (DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN):
                         if fv.options["layer"] == name:
                             referencing_layer_field.setdefault(k, []).append(fk)
 
-- 
2.43.0


From be2adbd27ff81546cf89d751c9c22b119bf75c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 30/72] fix: remove_layer cascades and reports the removal

---
 py/docria/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index c0851f2..f6ae6bd 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1900,7 +1900,12 @@ class Document:
             raise DataValidationError("Attempting to remove layer %s, but is referenced from layer(s)+field(s): %s"
                                       % (name, layer_field_names))
 
+        for layer_name, field_names in referencing_layer_field.items():
+            for field_name in field_names:
+                self.layers[layer_name].remove_field(field_name)
+
         del self.layers[name]
+        return True
 
     def __repr__(self):
         return "Document(%d layers, %d texts%s)" % (
-- 
2.43.0


From 5823bb1d1f1b21cf62ffdb35fed83abb27cd0587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 31/72] fix: type inferred for boolean values

---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index f6ae6bd..c2f0604 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1210,6 +1210,8 @@ class DataTypes:
     def typeof(o, comparetype: "DataType" = None) -> DataType:
         if isinstance(o, str):
             return DataTypes.string()
+        elif isinstance(o, bool):  # before int, bool is a subclass of int
+            return DataTypes.bool()
         elif isinstance(o, int):
             if comparetype is not None and comparetype.typename == DataTypeEnum.I32:
                 if -0x80000000 <= o <= 0x7FFFFFFF:
@@ -1220,8 +1222,6 @@ class DataTypes:
                 return DataTypes.int64()
         elif isinstance(o, float):
             return DataTypes.float64()
-        elif isinstance(o, bool):
-            return DataTypes.bool()
         elif isinstance(o, bytes):
             return DataTypes.binary
         elif isinstance(o, TextSpan):
-- 
2.43.0


From 3516ad2e7305d0a404c31490f9e1ddc0d1785aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:03 +0000
Subject: [PATCH 32/72] fix: node lists keep fields with merged types

---
 py/docria/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index c2f0604..e3ac0f6 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -508,6 +508,7 @@ class NodeList(list, NodeCollection):
                                                  (repr(resolved_type), repr(el), fld, repr(self)))
                             else:
                                 resolved_type = resolved_type.cast_up(el)
+                        output_types[fld] = resolved_type
                 else:
                     output_types[fld] = next(iter(dtypes))
 
-- 
2.43.0


From ad3cad8e44e69ea9b9fcd44d9dcde4f3985844c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 33/72] fix: type of node list fields with different options

---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index e3ac0f6..ed44b7a 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -495,8 +495,8 @@ class NodeList(list, NodeCollection):
             for fld, dtypes in fields.items():
                 if len(dtypes) > 1:
                     if len(set(map(lambda dtype: dtype.typename, dtypes))) == 1:
-                        # Exactly the same type
-                        output_types[fld] = next(iter(dtypes))
+                        # Same type with different options, none of which apply to all nodes
+                        output_types[fld] = DataType(next(iter(dtypes)).typename)
                     else:
                         resolved_type = None  # type: Optional[DataType]
                         for el in dtypes:
-- 
2.43.0


From 2bd3ca4abffc5d55bd8ce8bb5ef576387235f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 34/72] fix: XML export keeps supplementary characters

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 4c078cb..8d26775 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -889,7 +889,7 @@ class MsgpackCodec:
 
 class XmlCodec:
     """XML Codec, only encoding support"""
-    _string_pattern = re.compile(r"[^\u0009\u000A\u000D\u0020-\uD7FF\uE000-\uFFFD\u10000-\u10FFFF]", re.UNICODE)
+    _string_pattern = re.compile(r"[^\u0009\u000A\u000D\u0020-\uD7FF\uE000-\uFFFD\U00010000-\U0010FFFF]", re.UNICODE)
 
     @staticmethod
     def _string_encoder(s, repl=" "):
-- 
2.43.0


From c1cabd5b274117b97a7a23ac541ed33e40247e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 35/72] fix: XML export with verbose_node_spans

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 8d26775..1376300 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -1073,7 +1073,7 @@ class XmlCodec:
                                           })
                         )
                         if verbose_node_spans:
-                            text_entries[fk] = XmlCodec._string_encoder(fv)
+                            text_entries[fk] = XmlCodec._string_encoder(str(span))
                     elif isinstance(fv, NodeSpan):
                         embedded_entries.append(
                             ET.Element("d",
-- 
2.43.0


From efdbfafda950dcf283bb6338cf96744b792d454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 36/72] fix: XML export of characters that XML does not allow
 outside string fields

---
 py/docria/codec.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 1376300..97741aa 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -1011,6 +1011,8 @@ class XmlCodec:
         """
         import xml.etree.ElementTree as ET
         texts, schema, layers = XmlCodec.encode_intermediate(doc, **kwargs)
+        clean = XmlCodec._string_encoder
+        document_id = clean(document_id)
 
         if document_id != "":
             document_node = ET.Element("document", {"{http://www.w3.org/XML/1998/namespace}id": document_id})
@@ -1023,22 +1025,23 @@ class XmlCodec:
 
         prop_node = ET.SubElement(document_node, "props")
         for k, v in doc.props.items():
-            ET.SubElement(prop_node, "prop", {"key": k, "value": str(v)})
+            ET.SubElement(prop_node, "prop", {"key": clean(str(k)), "value": clean(str(v))})
 
         schema_node = ET.SubElement(document_node, "schema")
         for layer, schemadef in schema.items():
-            layer_schema_node = ET.SubElement(schema_node, "define", {"layer": layer})
+            layer_schema_node = ET.SubElement(schema_node, "define", {"layer": clean(layer)})
             for field, fielddef in schemadef.items():
                 if isinstance(fielddef, dict):
-                    field_node = ET.SubElement(layer_schema_node, "field", {"name": field, "type": fielddef["type"]})
+                    field_node = ET.SubElement(layer_schema_node, "field", {"name": clean(field), "type": fielddef["type"]})
                     for argk, argv in fielddef["args"].items():
-                        ET.SubElement(field_node, "arg", {"key": argk, "value": str(argv)})
+                        ET.SubElement(field_node, "arg", {"key": argk, "value": clean(str(argv))})
                 else:
-                    ET.SubElement(layer_schema_node, "field", {"name": field, "type": fielddef})
+                    ET.SubElement(layer_schema_node, "field", {"name": clean(field), "type": fielddef})
 
         texts_node = ET.SubElement(document_node, "texts")
         for textk, textv in texts.items():
-            text_node = ET.SubElement(texts_node, "text", {"name": textk})
+            textv = [clean(entry) for entry in textv]
+            text_node = ET.SubElement(texts_node, "text", {"name": clean(textk)})
             seps_node = ET.SubElement(text_node, "sep")
             if verbose:
                 pos = 0
@@ -1055,6 +1058,7 @@ class XmlCodec:
 
         layers_node = ET.SubElement(document_node, "layers")
         for layerk, layerv in layers.items():
+            layerk = clean(layerk)
             layer_node = ET.SubElement(layers_node, "layer", {"name": layerk})
             for i, n in enumerate(layerv):
                 array_entries = {}
@@ -1067,7 +1071,7 @@ class XmlCodec:
                         span = fv[1]  # type: TextSpan
                         embedded_entries.append(
                             ET.Element("d",
-                                          {"name": fk,
+                                          {"name": clean(fk),
                                            "from": str(offset_mapping[span.start]),
                                            "until": str(offset_mapping[span.stop])
                                           })
@@ -1077,9 +1081,9 @@ class XmlCodec:
                     elif isinstance(fv, NodeSpan):
                         embedded_entries.append(
                             ET.Element("d",
-                                          {"name": fk,
-                                           "from": fv.left.collection.name + "." + str(fv.left.i),
-                                           "to": fv.left.collection.name + "." + str(fv.right.i)})
+                                          {"name": clean(fk),
+                                           "from": clean(fv.left.collection.name) + "." + str(fv.left.i),
+                                           "to": clean(fv.left.collection.name) + "." + str(fv.right.i)})
                         )
                     elif isinstance(fv, list):
                         array_entries[fk] = fv
@@ -1095,13 +1099,13 @@ class XmlCodec:
                     n_node.append(ee)
 
                 for ak, av in array_entries.items():
-                    array_node = ET.SubElement(n_node, "a", {"name": ak})
+                    array_node = ET.SubElement(n_node, "a", {"name": clean(ak)})
                     for av_entry in av:
                         ET.SubElement(array_node, "e", {"v": av_entry})
 
                 if verbose_node_spans and len(text_entries) > 0:
                     for tk, tv in text_entries.items():
-                        ET.SubElement(n_node, "t", {"key": tk, "value": tv})
+                        ET.SubElement(n_node, "t", {"key": clean(tk), "value": tv})
 
         return root
 
-- 
2.43.0


From 9459b9825098adaf98a0a5c45d2b11c2207ba4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 37/72] fix: reading max_columns

---
 py/docria/printout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 9b5e048..49d0c00 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -53,7 +53,7 @@ class PrintOptions:
     @property
     def max_columns(self):
         """Max number of columns to display"""
-        return self._max_rows
+        return self._max_columns
 
     @max_columns.setter
     def max_columns(self, max_columns):
-- 
2.43.0


From 3c132ed6855f0d09090abdae628e8770be4330fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 38/72] fix: accept the smallest documented display width

---
 py/docria/printout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 49d0c00..5dbcfcc 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -88,8 +88,8 @@ class PrintOptions:
     def max_display_width(self, max_display_width):
         if max_display_width is None:
             self._max_display_width = None
-        elif max_display_width <= 10:
-            raise ValueError("Max column width must be None for infinite or >= 10")
+        elif max_display_width < 10:
+            raise ValueError("Max display width must be None for infinite or >= 10")
         else:
             self._max_display_width = int(max_display_width)
 
-- 
2.43.0


From 123b641ce6fc138111f17aa5e24136a0c23df954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 39/72] fix: truncation without a display limit and of texts
 that fit

---
 py/docria/printout.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 5dbcfcc..fe97742 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -113,9 +113,12 @@ def truncate(text):
     if options.max_column_width is None:
         return text
     else:
-        min_sz = min(options._max_display_width-5, options.max_column_width-5)
-        if len(text) > min_sz:
-            part = min_sz >> 1
+        max_sz = options.max_column_width
+        if options.max_display_width is not None:
+            max_sz = min(options.max_display_width, max_sz)
+
+        if len(text) > max_sz:
+            part = (max_sz-5) >> 1
             return "%s ... %s" % (text[0:part], text[-part:])
         else:
             return text
-- 
2.43.0


From af480f89b93e55553a8df63f66c4b5479d2dc996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 40/72] fix: HTML rendering of incomplete wikipedia URNs

---
 py/docria/printout.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index fe97742..3f636a5 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -152,6 +152,8 @@ def urn_link_wikidata(partial):
 
 def urn_link_wikipedia(partial):
     parts = partial.split(":", 1)
+    if len(parts) < 2:
+        return None
     return "https://{0}.wikipedia.org/wiki/{1}".format(escape(parts[0]), escape(parts[1]))
 
 
@@ -210,11 +212,9 @@ class Table:
                 if URN_MATCH.fullmatch(col) is not None:
                     parts = col.split(":", 2)
                     urn_type = parts[1].lower()
-                    if urn_type in URN_LINK_FN:
-                        output.append("<a href='{0}'>{1}</a>".format(
-                            URN_LINK_FN[urn_type](parts[2]), escape(truncate(str(col)))
-                            )
-                        )
+                    link = URN_LINK_FN[urn_type](parts[2]) if urn_type in URN_LINK_FN else None
+                    if link is not None:
+                        output.append("<a href='{0}'>{1}</a>".format(link, escape(truncate(str(col)))))
                         continue
 
             output.append(escape(truncate(str(col))))
-- 
2.43.0


From 776e2058ff61450040a544410e62d0c2f49f9e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 41/72] fix: escape row and text names in HTML

---
 py/docria/model.py    | 2 +-
 py/docria/printout.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index ed44b7a..53ad77f 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -777,7 +777,7 @@ class Text:
 
     def _repr_html_(self):
         from html import escape
-        return "<h3>Text: {0}</h3><pre>{1}</pre>".format(self.name, escape(self.text))
+        return "<h3>Text: {0}</h3><pre>{1}</pre>".format(escape(self.name), escape(self.text))
 
     def compile(self, offsets: List[int]):
         """
diff --git a/py/docria/printout.py b/py/docria/printout.py
index 3f636a5..89191e0 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -203,7 +203,7 @@ class Table:
         return output
 
     def format_html(self, row: TableRow, index: int):
-        output = [str(row.index) if row.index is not None else str(index)]
+        output = [escape(str(row.index)) if row.index is not None else str(index)]
         for col in row.elems:
             if isinstance(col, TableCell):
                 output.append(col.html)
-- 
2.43.0


From ae1a92a3f9db70b13f529b53c77a2c79ce87c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 42/72] fix: presentation of layers with a percent sign in the
 name

---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 53ad77f..e03665f 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1701,10 +1701,10 @@ class NodeLayerCollection(NodeCollection):
         return "Layer(%s, N=%d)" % (self.name, self.num)
 
     def _repr_html_(self):
-        return self._table_repr_("Layer '%s' with %%d nodes." % self.name).render_html()
+        return self._table_repr_("Layer '%s' with %%d nodes." % self.name.replace("%", "%%")).render_html()
 
     def __str__(self):
-        return self._table_repr_("Layer '%s' with %%d nodes." % self.name).render_text()
+        return self._table_repr_("Layer '%s' with %%d nodes." % self.name.replace("%", "%%")).render_text()
 
     def __len__(self):
         return self.num
-- 
2.43.0


From a89c201e595c911bbff3df9b2bc5f82361a62446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 43/72] fix: show as many rows as max_rows allows

---
 py/docria/printout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 89191e0..16609ec 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -227,7 +227,7 @@ class Table:
         if options.max_rows is not None and len(self.body) > options.max_rows:
             body = []
             part = options.max_rows >> 1
-            upper_part = zip(range(0, part), self.body[0:part])
+            upper_part = zip(range(0, options.max_rows-part), self.body[0:options.max_rows-part])
             lower_part = zip(range(len(self.body)-part, len(self.body)), self.body[-part:])
 
             body.extend(list(map(lambda tup: self.format_text(row=tup[1], index=tup[0]), upper_part)))
@@ -244,7 +244,7 @@ class Table:
         if options.max_rows is not None and len(self.body) > options.max_rows:
             body = []
             part = options.max_rows >> 1
-            upper_part = zip(range(0, part), self.body[0:part])
+            upper_part = zip(range(0, options.max_rows-part), self.body[0:options.max_rows-part])
             lower_part = zip(range(len(self.body)-part, len(self.body)), self.body[-part:])
 
             body.extend(list(map(lambda tup: self.format_html(row=tup[1], index=tup[0]), upper_part)))
-- 
2.43.0


From 2fcc7cbcaae031ad3bea68dfdb7ae2c6156c8fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 44/72] fix: wrap table columns before the display width is
 exceeded

---
 py/docria/printout.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 16609ec..30e2ebf 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -278,12 +278,14 @@ class Table:
                 column_width += actual_widths[0] + self.style.padding*2
 
             for i in range(column_pos, len(headers)):
-                column_width += actual_widths[i] + self.style.padding*2
-                column_end = i+1
-
-                if options.max_display_width is not None and column_width > options.max_display_width:
+                width = actual_widths[i] + self.style.padding*2
+                if options.max_display_width is not None and i > column_pos \
+                        and column_width + width > options.max_display_width:
                     break
 
+                column_width += width
+                column_end = i+1
+
             if column_pos == 1 and self.caption is not None:
                 # Print caption
                 output.append(str.format("{:^%d}" % column_width, truncate(self.caption)))
-- 
2.43.0


From 5d602d8bc182b436088267e482f8f6b611559d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 45/72] fix: keep layer order and indices intact when sort keys
 cannot be compared

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index e03665f..23b1e08 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1578,7 +1578,7 @@ class NodeLayerCollection(NodeCollection):
         :param keyfn: a function (input: Node) -> value to sort by.
         """
         self.compact()
-        self._nodes.sort(key=keyfn)
+        self._nodes = sorted(self._nodes, key=keyfn)  # not in-place, unchanged if keys cannot be compared
         for i, n in zip(range(len(self)), self):
             n._id = i
 
-- 
2.43.0


From 6d4eb363fbd62a16c0fedc2a2f33f26d4d040b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 46/72] fix: print node spans whose nodes were removed,
 reordered or have no text

---
 py/docria/model.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 23b1e08..5aa253d 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -443,7 +443,17 @@ class NodeSpan(NodeCollection):
     def last(self):
         return self.right
 
+    def _is_intact(self):
+        """Checks if both nodes still are in the same layer and in order, i.e. if this span can be iterated."""
+        return self.left.collection is not None and \
+            self.left.collection is self.right.collection and \
+            self.left.i <= self.right.i
+
     def _repr_html_(self):
+        if not self._is_intact():
+            from html import escape
+            return "<em>%s</em>" % escape(repr(self))
+
         return self._table_repr_(title="Node span with N=%d elements", offset=self.left.i).render_html()
 
     def __len__(self):
@@ -453,8 +463,10 @@ class NodeSpan(NodeCollection):
         return sum(1 for _ in self)
 
     def __repr__(self):
-        fields = self.left.collection.schema.fields
-        if "text" in fields and fields["text"].typename == DataTypeEnum.SPAN:
+        if not self._is_intact():
+            return "NodeSpan<invalid>"
+
+        if isinstance(self.left.get("text"), TextSpan) and isinstance(self.right.get("text"), TextSpan):
             return "NodeSpan[%s: %d to incl. %d] = %s" % (
                 self.left.collection.name, self.left.i, self.right.i, repr(self.text())
             )
@@ -462,6 +474,9 @@ class NodeSpan(NodeCollection):
             return "NodeSpan[%s: %d to incl. %d]" % (self.left.collection.name, self.left.i, self.right.i)
 
     def __str__(self):
+        if not self._is_intact():
+            return repr(self)
+
         tbl = self._table_repr_()
         return tbl.render_text()
 
-- 
2.43.0


From d24ce1ac8a1428292fcaeacffb92806f4d0d93b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 47/72] fix: print reference lists that hold removed nodes

---
 py/docria/printout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 30e2ebf..258fad5 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -385,7 +385,7 @@ def get_representation(value):
 
             for elem in value:
                 if isinstance(elem, Node):
-                    nodetypes.add(elem.collection.name)
+                    nodetypes.add("<removed>" if elem.is_dangling() else elem.collection.name)
                 else:
                     all_nodes = False
                     break
-- 
2.43.0


From 027f443f63cacbce334dd3f5f00ed5ff74303db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 48/72] fix: encode and decode extended data fields

---
 py/docria/codec.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 97741aa..7bc6727 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -80,7 +80,7 @@ class Codec:
                 typeschema[field] = fieldtype.encode()
 
                 propvalues = []
-                encoder = Codec.encoders[fieldtype.typename]
+                encoder = Codec.encoders.get(fieldtype.typename)
                 if fieldtype.typename == DataTypeEnum.EXT:
                     for n in v:
                         extv = node_getter(n, field, None)
@@ -93,8 +93,6 @@ class Codec:
                                 raise ValueError("Incorrect value.")
                         else:
                             propvalues.append(None)
-
-                        propvalues.append(None if extv is None else extv.encode())
                 elif fieldtype.typename == DataTypeEnum.SPAN:
                     encoder = encoder(offset_mapping[fieldtype.options["context"]][0])
                     for n in v:
@@ -775,13 +773,6 @@ class MsgpackCodec:
                         if v is not None:
                             n[col] = v
 
-                def doc_field(data):
-                    nonlocal nodes
-
-                    for n, v in zip(nodes, data):
-                        if v is not None:
-                            n[col] = MsgpackCodec.decode(v)
-
                 def ext_field(data):
                     types = typedef.options["type"]
                     if types == "doc":
@@ -791,7 +782,7 @@ class MsgpackCodec:
 
                     for n, v in zip(nodes, data):
                         if v is not None:
-                            n[col] = extdata(v.data)
+                            n[col] = extdata(v)
 
                 def span_field(text, offsets):
                     nonlocal nodes
@@ -814,10 +805,7 @@ class MsgpackCodec:
                         doc.texts.get(typedef.options["context"], None),
                         text2offsets.get(typedef.options["context"], None))
                 elif typedef.typename == DataTypeEnum.EXT:
-                    if typedef.options["type"] == "doc":
-                        decoder = doc_field
-                    else:
-                        decoder = ext_field
+                    decoder = ext_field
 
                 special_encoding = next(unpacker)
                 if special_encoding:
-- 
2.43.0


From 93297d8c670f9b91d0369dcb588e467f4fc1d2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 49/72] fix: Node.is_valid returns False instead of failing on
 removed nodes and on values that are not nodes

---
 py/docria/model.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 5aa253d..e408d89 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -129,6 +129,9 @@ class Node(dict):
         :return: true if valid
         """
         if noexcept:
+            if self.collection is None:
+                return False
+
             try:
                 return self.collection.validate(self)
             except AssertionError:
@@ -1093,7 +1096,8 @@ class DataTypeNoderefList(DataType):
     def is_valid(self, value) -> bool:
         target_layer = self.options["layer"]
         return (isinstance(value, list) or isinstance(value, NodeCollection)) and \
-               all(map(lambda n: n.collection is not None and n.collection.name == target_layer, value))
+               all(map(lambda n: isinstance(n, Node) and
+                       n.collection is not None and n.collection.name == target_layer, value))
 
 
 _typename2datatype = {
@@ -1423,6 +1427,9 @@ class NodeLayerCollection(NodeCollection):
                 fieldvalue = node[field]
                 if not node.collection.fieldtypes[field].is_valid(fieldvalue):
                     if fieldtype.typename == DataTypeEnum.NODEREF_SPAN:
+                        assert isinstance(fieldvalue, NodeSpan), \
+                            "Not a node span: " \
+                            "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
                         assert fieldvalue.left is not None, \
                             "Left node is None: " \
                             "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
@@ -1448,6 +1455,9 @@ class NodeLayerCollection(NodeCollection):
                             "field '%s' in layer '%s' for node %s" % \
                             (fieldvalue.left.i, fieldvalue.right.i, field, self.name, repr(node))
                     elif fieldtype.typename == DataTypeEnum.NODEREF:
+                        assert isinstance(fieldvalue, Node), \
+                            "Not a node: " \
+                            "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
                         assert fieldvalue.collection is not None, \
                             "Node is removed: " \
                             "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
-- 
2.43.0


From 27d2421d441166fa4803b8cc2eff1369f85075b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 50/72] fix: search indices with another base path than the
 working directory

---
 py/docria/collection.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index c26bf5e..3aa07f1 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -684,10 +684,14 @@ class DocumentFileIndex:
 
         return DocumentFileIndex(source_filepath, property2docis, docs)
 
-    def search(self, conds, lazy=False):
+    def search(self, conds, lazy=False, basepath="."):
         if len(conds) == 0:
             return
 
+        filepath = os.path.join(basepath, self.filepath)
+        if not os.path.exists(filepath):  # a collection that was moved: relative to the working directory
+            filepath = self.filepath
+
         all_hits = []
         for k, v in dict(conds).items():
             all_hits.append(set(self.properties.get(k, {}).get(v, [])))
@@ -699,7 +703,7 @@ class DocumentFileIndex:
         from docria.codec import MsgpackCodec
 
         if len(results) > 0:
-            reader = MsgpackDocumentIO.read(self.filepath)
+            reader = MsgpackDocumentIO.read(filepath)
             lastblk = None
 
             # Optimized reading if multiple hits exist within a block sequentially
@@ -735,7 +739,7 @@ class DocumentIndex:
 
     def search(self, conds, lazy=False):
         for indx in self.index.values():
-            for doc in indx.search(conds, lazy=lazy):
+            for doc in indx.search(conds, lazy=lazy, basepath=self.basepath):
                 yield doc
 
     def save(self, path):
-- 
2.43.0


From 6a40a39dd9b1a94d8d1b9a50b9531eb60f1ad2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:04 +0000
Subject: [PATCH 51/72] fix: DominantRight (Java) opens a segment only at its
 start

---
 .../main/java/se/lth/cs/docria/algorithms/DominantRight.java    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java b/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
index 49b5214..bedffc9 100644
--- a/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
+++ b/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
@@ -85,7 +85,7 @@ public class DominantRight {
                     output.add(point.segment.tag);
                     open = null;
                 }
-            } else {
+            } else if(point.start) {
                 open = point.segment;
             }
         }
-- 
2.43.0


From bc64a4e13eedf004cf7f0f3a2c2b392db1d84640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 52/72] fix: GroupBySpan (Java) uses the span field given for a
 list of groups

---
 .../src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java b/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java
index ab4f28d..d70292c 100644
--- a/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java
+++ b/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java
@@ -31,7 +31,7 @@ public class GroupBySpan {
     }
 
     public static Builder builder(List<Node> groups, String spanfield) {
-        return new Builder(groups, "text");
+        return new Builder(groups, spanfield);
     }
 
     public static Builder builder(Layer groups) {
-- 
2.43.0


From 3d09fdba7bf99244013782ed49a4c0b14ca10ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 53/72] fix: Text.span (Java) accepts an empty span at the end
 of the text

---
 java/core/src/main/java/se/lth/cs/docria/Text.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Text.java b/java/core/src/main/java/se/lth/cs/docria/Text.java
index c98be85..e9560f2 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Text.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Text.java
@@ -134,7 +134,7 @@ public class Text implements CharSequence {
 
     public Span span(int startOffset, int stopOffset) {
         if(validating && !(
-                (startOffset >= 0 && startOffset < text.length())
+                (startOffset >= 0 && startOffset <= text.length())
              && (stopOffset >= 0 && stopOffset <= text.length())
              && (stopOffset >= startOffset)
         )) {
-- 
2.43.0


From 6a0ea1e0202ae8ef72794e7f7fc89c9a815758da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:07 +0000
Subject: [PATCH 54/72] fix: BoundaryWriter (Java) writes single bytes up to
 the boundary

---
 java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java
index e6f2df1..e4da45e 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java
@@ -65,7 +65,7 @@ public class BoundaryWriter extends OutputStream {
 
     @Override
     public void write(int b) throws IOException {
-        if(((written + 1) >> boundary) > seg) {
+        if((written >> boundary) > seg) {
             writeBoundary();
         }
 
-- 
2.43.0


From a4c8bf0f4717cfdf5ba5e8e905f57249ab869162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 55/72] fix: BoundaryReader.skip (Java) counts the skipped
 bytes

---
 .../src/main/java/se/lth/cs/docria/io/BoundaryReader.java     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
index eddb66d..91c1267 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
@@ -125,7 +125,9 @@ public class BoundaryReader extends InputStream {
         }
 
         long maxskip = Math.min(n, ((seg+1)<<boundary) - read);
-        return inputStream.skip(maxskip);
+        long skipped = inputStream.skip(maxskip);
+        this.read += skipped;
+        return skipped;
     }
 
     @Override
-- 
2.43.0


From 4baf2fda99970a897e115f0efa02b80287b85df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:09 +0000
Subject: [PATCH 56/72] fix: nextBlock (Java) keeps the block it reads to
 itself

---
 .../java/se/lth/cs/docria/io/DocumentStreamReader.java    | 8 +++-----
 .../se/lth/cs/docria/io/MsgpackDocumentStreamReader.java  | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
index ccdc446..6fd0f51 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
@@ -92,12 +92,10 @@ public class DocumentStreamReader {
                 }
 
                 byte[] rawdata = codec.apply(compressed);
-                block = MessagePack.newDefaultUnpacker(rawdata);
-                if(block.hasNext())
-                    break;
+                MessageUnpacker nextBlock = MessagePack.newDefaultUnpacker(rawdata);
+                if(nextBlock.hasNext())
+                    return nextBlock;
             }
-
-            return block;
         } catch (IOException e) {
             throw new IOError(e);
         }
diff --git a/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java b/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
index e533283..77c682e 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
@@ -102,12 +102,10 @@ public class MsgpackDocumentStreamReader {
                 }
 
                 byte[] rawdata = codec.apply(compressed);
-                block = MessagePack.newDefaultUnpacker(rawdata);
-                if(block.hasNext())
-                    break;
+                MessageUnpacker nextBlock = MessagePack.newDefaultUnpacker(rawdata);
+                if(nextBlock.hasNext())
+                    return nextBlock;
             }
-
-            return block;
         } catch (IOException e) {
             throw new IOError(e);
         }
-- 
2.43.0


From f14519708efa30a9e6c74545e7cafdfd9cc4b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:10 +0000
Subject: [PATCH 57/72] fix: DocumentStreamWriter.flush (Java) writes the
 header

---
 .../src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java
index 33f471b..9f44649 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java
@@ -118,6 +118,7 @@ public class DocumentStreamWriter {
             if(currentblockCount > 0)
                 flushblock();
 
+            packer.flush();
             outputStream.flush();
         } catch (IOException e) {
             throw new IOError(e);
-- 
2.43.0


From fa9db2885d9f74bf07f4221cde39a1e1fb825aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 58/72] fix: DominantRight (Java) leaves out nodes without the
 span field

---
 .../main/java/se/lth/cs/docria/algorithms/DominantRight.java   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java b/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
index bedffc9..790ccfe 100644
--- a/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
+++ b/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
@@ -95,7 +95,7 @@ public class DominantRight {
 
 
     public static List<Node> resolveNodespans(Collection<Node> nodes, String nodespanField) {
-        return resolve(() -> nodes.stream().map(n -> {
+        return resolve(() -> nodes.stream().filter(n -> n.has(nodespanField)).map(n -> {
             NodeSpan span = n.get(nodespanField).nodeSpanValue();
             return new Segment<>(span.getLeft().id(), span.getRight().id()+1, n);
         }).iterator());
@@ -103,6 +103,7 @@ public class DominantRight {
 
     public static List<Node> resolve(Collection<Node> nodes, String spanfield) {
         return resolve(() -> nodes.stream()
+                                  .filter(n -> n.has(spanfield))
                                   .map(n -> {
                                       Span span = n.get(spanfield).spanValue();
                                       return new Segment<>(span.start(), span.stop(), n);
-- 
2.43.0


From f8e91e9f47f0cdf9d003197f125db5bc5afcadea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 59/72] fix: BoundaryReader (Java) ends with a stream that ends
 at a boundary

---
 .../src/main/java/se/lth/cs/docria/io/BoundaryReader.java     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
index 91c1267..0e9f590 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
@@ -102,8 +102,8 @@ public class BoundaryReader extends InputStream {
             }
 
             int maxread = (int)Math.min(left, ((seg+1)<<boundary) - read);
-
-            int read = inputStream.read(b, pos, maxread);
+            // Nothing can be read if the stream ended right at the boundary.
+            int read = maxread > 0 ? inputStream.read(b, pos, maxread) : -1;
             if(read >= 0) {
                 left -= read;
                 pos += read;
-- 
2.43.0


From b80d354b9b37b1e93eca5713d0f3be7657c4f56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 60/72] fix: Java Layer.clear skips the slots of removed nodes

---
 java/core/src/main/java/se/lth/cs/docria/Layer.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Layer.java b/java/core/src/main/java/se/lth/cs/docria/Layer.java
index 1d8791e..ebe47e7 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Layer.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Layer.java
@@ -154,6 +154,9 @@ public class Layer extends AbstractCollection<Node> {
     @Override
     public void clear() {
         for (Node node : storage) {
+            if(node == null)
+                continue;
+
             node.layer = null;
             node.id = -1;
         }
-- 
2.43.0


From b3fe825524e032825339176ea9a9f1082b0b43cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 61/72] fix: Java Layer.add appends, and compact leaves no
 empty slots behind

---
 .../src/main/java/se/lth/cs/docria/Layer.java  | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Layer.java b/java/core/src/main/java/se/lth/cs/docria/Layer.java
index ebe47e7..f357532 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Layer.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Layer.java
@@ -174,16 +174,8 @@ public class Layer extends AbstractCollection<Node> {
 
         node.id = storage.size();
         node.layer = this;
-        if(this.size < storage.size()) {
-            storage.set(this.size, node);
-            this.size++;
-            return true;
-        }
-        else
-        {
-            this.size++;
-            return storage.add(node);
-        }
+        this.size++;
+        return storage.add(node);
     }
 
     @Override
@@ -337,13 +329,11 @@ public class Layer extends AbstractCollection<Node> {
             }
         }
 
-        for(int k = size; k < storage.size(); k++) {
-            storage.set(k, null);
-        }
-
         // Shrink to size
         if(this.size < 0.75 * storage.size() && storage.size() > 16)
             storage = new ArrayList<>(storage.subList(0, this.size));
+        else
+            storage.subList(this.size, storage.size()).clear();
     }
 
     @Override
-- 
2.43.0


From dd78bf44ea72e8bbbf1b4822224f1d8ae4eca56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:42 +0000
Subject: [PATCH 62/72] fix: Java Layer.sort numbers the nodes anew

---
 java/core/src/main/java/se/lth/cs/docria/Layer.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Layer.java b/java/core/src/main/java/se/lth/cs/docria/Layer.java
index f357532..1667e33 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Layer.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Layer.java
@@ -143,6 +143,9 @@ public class Layer extends AbstractCollection<Node> {
     public Layer sort(Comparator<Node> comparator) {
         compact();
         storage.subList(0, size).sort(comparator);
+        for(int i = 0; i < size; i++) {
+            storage.get(i).id = i;
+        }
         return this;
     }
 
-- 
2.43.0


From 98af5062f95119ede54f4e626804e73d950b5379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 63/72] fix: Java Layer.retainAll keeps exactly the given nodes

---
 .../src/main/java/se/lth/cs/docria/Layer.java | 30 ++++++++-----------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Layer.java b/java/core/src/main/java/se/lth/cs/docria/Layer.java
index 1667e33..a3a382a 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Layer.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Layer.java
@@ -259,7 +259,7 @@ public class Layer extends AbstractCollection<Node> {
     public boolean retainAll(Collection<?> c) {
         Objects.requireNonNull(c);
 
-        boolean edited = false;
+        Set<Node> retained = Collections.newSetFromMap(new IdentityHashMap<>());
         for (Object o : c) {
             if(!(o instanceof Node))
                 throw new IllegalArgumentException("Collection must only contain nodes!");
@@ -268,27 +268,23 @@ public class Layer extends AbstractCollection<Node> {
             if(n.layer != this)
                 throw new IllegalArgumentException(String.format("Collection must only contain nodes bound to this layer: %s", name()));
 
-            n.id = -n.id;
-            edited = true;
+            retained.add(n);
         }
 
-        if(edited) {
-            for (int i = 0; i < this.storage.size(); i++) {
-                Node node = this.storage.get(i);
-                if (node != null) {
-                    if (node.id >= 0) {
-                        this.storage.set(i, null);
-                        this.size--;
-                    } else {
-                        node.id = -node.id;
-                    }
-                }
+        boolean edited = false;
+        for (int i = 0; i < this.storage.size(); i++) {
+            Node node = this.storage.get(i);
+            if (node != null && !retained.contains(node)) {
+                node.layer = null;
+                this.storage.set(i, null);
+                this.size--;
+                edited = true;
             }
-
-            if (this.size < 0.75 * storage.size() && storage.size() > 16)
-                compact();
         }
 
+        if (this.size < 0.75 * storage.size() && storage.size() > 16)
+            compact();
+
         return edited;
     }
 
-- 
2.43.0


From 440ed1de5242f54f3d51dad6e5727edcf1238205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 64/72] fix: Java NodeSpan refuses nodes of different layers

---
 java/core/src/main/java/se/lth/cs/docria/NodeSpan.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/NodeSpan.java b/java/core/src/main/java/se/lth/cs/docria/NodeSpan.java
index efb6cc2..e81c21c 100644
--- a/java/core/src/main/java/se/lth/cs/docria/NodeSpan.java
+++ b/java/core/src/main/java/se/lth/cs/docria/NodeSpan.java
@@ -23,6 +23,10 @@ public class NodeSpan extends Value implements Iterable<Node> {
             throw new DataInconsistencyException("Right node is not bound to a layer.");
         }
 
+        if(left.layer != right.layer) {
+            throw new DataInconsistencyException("Left and right nodes are not bound to the same layer.");
+        }
+
         if(left.id > right.id)
             throw new DataInconsistencyException(
                     String.format("Left and right nodes are " +
-- 
2.43.0


From ae507ad3d83d1c18637bae2d820ca855ddeeec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:45 +0000
Subject: [PATCH 65/72] fix: Java nodes as field values are visited as nodes

---
 java/core/src/main/java/se/lth/cs/docria/Node.java | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Node.java b/java/core/src/main/java/se/lth/cs/docria/Node.java
index 83c256f..6defcf7 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Node.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Node.java
@@ -16,6 +16,7 @@
 package se.lth.cs.docria;
 
 import se.lth.cs.docria.values.NullValue;
+import se.lth.cs.docria.values.ValueVisitor;
 import se.lth.cs.docria.values.Values;
 
 import java.util.List;
@@ -155,6 +156,11 @@ public class Node extends Value {
         return this;
     }
 
+    @Override
+    public void visit(ValueVisitor visitor) {
+        visitor.accept(this);
+    }
+
     public void forEach(BiConsumer<String, Value> fieldFunction) {
         data.forEach(fieldFunction);
     }
-- 
2.43.0


From 4417088dc03191fb309caa6a87c37c8f1c26c398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:46 +0000
Subject: [PATCH 66/72] fix: Java codec reads binary fields by their header

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index d2af9ed..5e40625 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -708,7 +708,7 @@ public class MsgpackCodec {
                 case BINARY:
                     for (int k = 0; k < numNodes; k++) {
                         if(!unpacker.tryUnpackNil()) {
-                            int numBytes = unpacker.unpackArrayHeader();
+                            int numBytes = unpacker.unpackBinaryHeader();
                             nodes.get(k).put(field, unpacker.readPayload(numBytes));
                         }
                     }
-- 
2.43.0


From 10e975036a6ec48d24f73e862162723d596277bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:46 +0000
Subject: [PATCH 67/72] fix: Java codec reads extension and nil properties, and
 writes the type of an extension

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index 5e40625..a66546e 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -126,7 +126,7 @@ public class MsgpackCodec {
                 byte[] bytes = value.binaryValue();
                 if(schemaless) {
                     MessageBufferPacker typePacker = MessagePack.newDefaultBufferPacker();
-                    typePacker.packString("doc");
+                    typePacker.packString(value.type().args().get("type").stringValue());
                     typePacker.packBinaryHeader(bytes.length);
                     typePacker.addPayload(bytes);
                     byte[] data = typePacker.toByteArray();
@@ -471,6 +471,10 @@ public class MsgpackCodec {
                     else
                         throw new UnsupportedOperationException(
                                 "Unsupported extension type: " + value.asExtensionValue().getType() + " for property key: " + key);
+                    break;
+                case NIL:
+                    props.put(key, NullValue.INSTANCE);
+                    break;
                 default:
                     throw new UnsupportedOperationException(
                             "Unsupported property type: " + value.getValueType().toString());
-- 
2.43.0


From 54d0b6179c9405323439abafd91e3bdab915e5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 68/72] fix: Java codec reads type arguments in double
 precision

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index a66546e..06af044 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -532,7 +532,7 @@ public class MsgpackCodec {
 
                                 break;
                             case FLOAT:
-                                args.put(key, Values.get(value.asFloatValue().toFloat()));
+                                args.put(key, Values.get(value.asFloatValue().toDouble()));
                                 break;
                             case BINARY:
                                 args.put(key, Values.get(value.asBinaryValue().asByteArray()));
-- 
2.43.0


From ace4ac7c0a59b242ea0075ef174313769f41f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 69/72] fix: Java codec reads empty lists of nodes

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index 06af044..e9ec72f 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -812,7 +812,7 @@ public class MsgpackCodec {
                                 nodes[k] = targetLayer.get(nodeIds[k]);
                             }
 
-                            n.put(field, nodes);
+                            n.put(field, new NodeArrayValue(Arrays.asList(nodes)));
                         }
                     });
                     break;
-- 
2.43.0


From ba3ce50233235761108dc1aaa7f9a5b6b2fec221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 70/72] fix: Java MsgpackDocument.properties reads its
 compartment only

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
index 23db10d..c06dbe4 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
@@ -114,7 +114,7 @@ public class MsgpackDocument {
     public Map<String, Value> properties() {
         determineCompartments();
         try {
-            MessageUnpacker unpacker = MessagePack.newDefaultUnpacker(data, positions[PROPERTY_START], positions[PROPERTY_END]);
+            MessageUnpacker unpacker = MessagePack.newDefaultUnpacker(data, positions[PROPERTY_START], positions[PROPERTY_END] - positions[PROPERTY_START]);
             return MsgpackCodec.decodeProperties(unpacker);
         } catch (IOException e) {
             throw new IOError(e);
-- 
2.43.0


From 00e237ea8d3d2dd2af729f7913d20e2261fc8a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:49 +0000
Subject: [PATCH 71/72] fix: Java MsgpackDocument finds all layers and reads
 the schema on demand

---
 .../src/main/java/se/lth/cs/docria/MsgpackDocument.java    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
index c06dbe4..1e027c9 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
@@ -102,8 +102,10 @@ public class MsgpackDocument {
 
                 // 4. Find layer compartment
                 positions[LAYERS_START] = (int)unpacker.getTotalReadBytes();
-                int layer_sz = unpacker.unpackInt();
-                unpacker.readPayloadAsReference(layer_sz);
+                for (int i = 0; i < types.size(); i++) {
+                    int layer_sz = unpacker.unpackInt();
+                    unpacker.readPayloadAsReference(layer_sz);
+                }
                 positions[LAYERS_END] = (int)unpacker.getTotalReadBytes();
             } catch (IOException e) {
                 throw new IOError(e);
@@ -142,6 +144,7 @@ public class MsgpackDocument {
     }
 
     public Schema schema() {
+        determineCompartments();
         return schema;
     }
 
-- 
2.43.0


From 5df80253abaabd0516bd5e7bab9f3ac0dc2cd2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:50 +0000
Subject: [PATCH 72/72] fix: Java MsgpackDocument of compartments has the
 document header

---
 .../core/src/main/java/se/lth/cs/docria/MsgpackDocument.java | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
index 1e027c9..210efeb 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
@@ -38,10 +38,13 @@ public class MsgpackDocument {
     }
 
     public MsgpackDocument(byte[] propertyCompartment, byte[] schemaCompartment, byte[] textCompartment, byte[] layerCompartment) {
-        int totalSize = propertyCompartment.length + schemaCompartment.length + textCompartment.length + layerCompartment.length;
+        byte[] header = "DM_1".getBytes();
+        int totalSize = header.length + propertyCompartment.length + schemaCompartment.length + textCompartment.length + layerCompartment.length;
         this.data = new byte[totalSize];
 
         int pos = 0;
+        System.arraycopy(header, 0, data, pos, header.length);
+        pos += header.length;
         System.arraycopy(propertyCompartment, 0, data, pos, propertyCompartment.length);
         pos += propertyCompartment.length;
         System.arraycopy(schemaCompartment, 0, data, pos, schemaCompartment.length);
-- 
2.43.0

