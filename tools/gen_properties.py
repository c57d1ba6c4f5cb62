#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long strings stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": ["py/docria/" + f if not f.startswith("java/") else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": list(observe), "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Binary encoding round-trips every valid document",
  "Encoding a valid document to the binary (MessagePack) format and decoding it gives back the same properties, texts, layers, declared field types, nodes in order and field values, for every field type (32/64-bit integer, float, boolean, string, binary, text span, node reference, node reference list, node span, extended data). A span comes back with the same text and offsets, a reference comes back pointing at the corresponding node of the decoded document, an absent field stays absent and only an empty reference list may come back as absent. This also holds after nodes were removed, reordered or retained, encoding does not change what the document contains, and encoding the decoded document gives the same bytes.",
  ["inputs", "programs"], "all documents: any text length, any span offsets, any field values and presence pattern, any reference graph, any earlier removals",
  "The tests round-trip three fixed documents with two layers and non-nested spans; offset ordering, coinciding and empty spans, absent fields, gaps and reference lists form an unbounded space.",
  ["codec.py", "model.py"],
  [("MsgpackCodec.encode/decode", "py/docria/codec.py"), ("Codec.encode, Codec.commit_layers", "py/docria/codec.py"), ("Document.compile offset table", "py/docria/model.py"), ("Text.compile segmentation", "py/docria/model.py")],
  [("offset table", "sorted distinct span offsets per text; spans are stored as indices into it", "Document.compile")],
  ["MsgpackCodec.encode", "MsgpackCodec.decode", "MsgpackDocument(...).document()"])
p("C02", "JSON encoding round-trips every JSON-representable document",
  "Encoding a valid document whose field and property values are representable in JSON (integers, floats, booleans, strings, text spans, node references, node reference lists, node spans) to JSON and decoding it gives back the same properties, texts, layers, declared field types, nodes in order and field values. Spans keep their text and offsets and references point at the corresponding node; an absent field stays absent and only an empty reference list may come back as absent.",
  ["inputs", "programs"], "all JSON-representable documents",
  "One fixed two-layer document is round-tripped today.",
  ["codec.py", "model.py"], [("JsonCodec.encode/decode", "py/docria/codec.py"), ("Document.compile", "py/docria/model.py")], (),
  ["JsonCodec.encode", "JsonCodec.decode"])
p("C03", "Only schema-valid documents are accepted for encoding",
  "Encoding (binary, JSON or XML) succeeds exactly when every value set on a node has the declared type of its field (integer range included), no node carries an undeclared field unless extra fields were explicitly allowed, and every layer or text that the schema refers to exists; otherwise an error is raised and no encoding is produced. Allowing extra fields does not switch off type checking, adding a node through field values applies the same type check, and a decoded document enforces the same schema as the original. References to removed nodes, or to nodes or texts under another name than declared, are never accepted. (A boolean given for an integer field is not judged.)",
  ["inputs", "programs"], "all field types, all values (any integer magnitude, wrong Python types, dangling references), all schemas",
  "Tests only check one undeclared field; the accepted value range per type, dangling references and the option combinations are never exercised.",
  ["model.py", "codec.py"], [("Document.compile validation", "py/docria/model.py"), ("NodeLayerCollection.validate", "py/docria/model.py"), ("DataType*.is_valid", "py/docria/model.py"), ("schema decoding", "py/docria/codec.py")], (),
  ["MsgpackCodec.encode", "JsonCodec.encode", "XmlCodec.encode_tree", "NodeLayerCollection.add", "Node.is_valid"])
p("C04", "Layer contents and node indices stay consistent over any edit history",
  "After any sequence of add, add many, remove (one, several, or detach), retain, sort and compact, a layer contains exactly the nodes added and not removed, in insertion order (or in stable key order after a sort), and its length, iteration, first, last, slicing, list and field-column views all agree with that. Every contained node belongs to the layer and looking up its index gives that node; every removed node is dangling and is no longer found. An operation refused because of a foreign node, or of sort keys that cannot be compared, leaves the contents and indices of the layer consistent.",
  ["histories", "inputs"], "all operation sequences, any layer size, any choice of nodes removed or retained, any sort keys",
  "Tests run two short scripted histories on a nine-node layer that never reach the compaction threshold and never retain after a removal.",
  ["model.py"], [("NodeLayerCollection.add/add_many/remove/retain/sort/compact", "py/docria/model.py")],
  [("node list with gaps", "slots of removed nodes are empty until compaction; a live counter tracks length", "NodeLayerCollection")],
  ["NodeLayerCollection", "Node.i", "Node.is_dangling"])
p("C05", "Neighbour navigation and node spans follow layer order",
  "For every layer, whatever was removed before, the left/right neighbour of a node is the nearest remaining node before/after it, or none at the ends. A span between two nodes iterates exactly the remaining nodes from the left one to the right one inclusive, in layer order, independently of the order the two are given to a span iteration; its length, first, last, text and covering text span agree with that. Building a node span with nodes in the wrong order or from different layers is refused.",
  ["histories", "inputs"], "all gap patterns and node pairs",
  "One node span without gaps is tested.",
  ["model.py"], [("left/right/iter_nodespan", "py/docria/model.py"), ("NodeSpan", "py/docria/model.py"), ("Node.iter_span", "py/docria/model.py")], (),
  ["Node.left", "Node.right", "Node.iter_span", "NodeSpan"])
p("C06", "Text and span slicing agrees with string slicing",
  "Slicing a text by a slice or a (start, stop) pair gives a span whose string value, start, stop and length are those of slicing the underlying string, slices with negative or omitted bounds being resolved as Python does, and invalid ranges (stop before start, a pair out of bounds) are refused. Slicing or indexing a span is the same relative to the span, and an index outside the span is refused rather than reading a character next to the span. Joining two spans of a text gives the string or span from the start of the first to the stop of the second.",
  ["inputs"], "all texts, all integer bounds (negative, omitted, out of range)",
  "A dozen constant slices of one text are tested, none out of range.",
  ["model.py"], [("Text.__getitem__", "py/docria/model.py"), ("TextSpan.__getitem__", "py/docria/model.py"), ("text_to/span_to", "py/docria/model.py")], (),
  ["Text", "TextSpan"])
p("C07", "Span comparison, covering and trimming are correct",
  "A span is covered by another span or range exactly when it lies within it, and intersects it exactly when each begins before the other ends (half-open intervals; an empty span strictly inside another intersects it). Trimming removes exactly the leading and trailing whitespace, as stripping the string would, giving an empty span for a whitespace-only one; in-place and copying trims agree and the copying one leaves the original span unchanged. Equal spans of one text have equal hashes, and a span equals a string exactly when its string value does.",
  ["inputs"], "all spans and ranges, all text contents up to the stated length",
  "covered_by is exercised once through a query; trim, intersected_by, equality and hash are not tested.",
  ["model.py"], [("TextSpan.covered_by/intersected_by/trim/trim_/__eq__/__hash__", "py/docria/model.py")], (),
  ["TextSpan"])
p("C08", "Queries return exactly the matching nodes in layer order",
  "Filtering a layer, node list or earlier query result by a field comparison (==, !=, <, <=, >, >=), is-none, has-value, any-of, covered-by, intersected-by, a function filter, or any and/or/not combination of those returns exactly the nodes whose field values satisfy it, in layer order. Refreshing a query re-evaluates it on the current contents. A node without a value counts as none: it equals only none and satisfies no ordering or span comparison. A field column lists that field's value of every node in order, with none for absent ones.",
  ["inputs", "histories"], "all field values, predicates and combinations",
  "One covered_by query is tested; no comparison operator or combinator is.",
  ["query.py", "model.py"], [("NodePredicate classes", "py/docria/query.py"), ("NodeFieldCollection operators", "py/docria/model.py"), ("NodeCollectionQuery", "py/docria/model.py")], (),
  ["NodeCollection.__getitem__", "NodeFieldCollection"])
p("C09", "Collection files return every document, in order and by reference",
  "Reading a collection file gives back exactly the documents written, in order and unchanged, for every documents-per-block setting, every placement of explicit flushes and every compression codec, whether documents were written decoded or already encoded. The reference attached to each document read, used in any order and interleaved with sequential reads, gets that same document again (it may move the place where sequential reading goes on), and reading by blocks yields the same documents with the same positions.",
  ["inputs", "histories"], "all document counts and sizes, block sizes, flush placements, codecs, access orders",
  "One single-document file is written and read; block limits, flushes, references and codecs are untested.",
  ["collection.py"], [("MsgpackDocumentWriter.write/flush/close", "py/docria/collection.py"), ("MsgpackDocumentReader", "py/docria/collection.py"), ("MsgpackDocumentBlock", "py/docria/collection.py"), ("register_codec/get_codec", "py/docria/collection.py")],
  [("current block", "documents buffered until the block limit", "MsgpackDocumentWriter"), ("file/block position", "document reference = (block position in file, position in block)", "MsgpackDocumentReader")],
  ["MsgpackDocumentReader", "MsgpackDocument.ref"])
p("C10", "A truncated collection file yields only complete, correct documents",
  "If writing a collection file stops at any byte after its header (crash, full disk), reading what is there yields exactly the documents of the blocks that were completely written, in order and unchanged, and then ends; no partial, altered or invented document is returned. Documents that were flushed are in completely written blocks, and documents still buffered are never partly in the file.",
  ["crash_points", "inputs"], "every truncation point, all document sizes and block settings",
  "No test truncates a file.",
  ["collection.py"], [("block framing by MessagePack length prefix", "py/docria/collection.py"), ("MsgpackDocumentWriter.flush", "py/docria/collection.py")], (),
  ["MsgpackDocumentReader iteration"])
p("C11", "Boundary framing is transparent and marks split points",
  "Data written through the boundary writer in pieces of any size and read back through the boundary reader in pieces of any size, or from any sought logical offset, is unchanged, for every boundary exponent 12 to 30. The physical stream carries, at every multiple of 2^boundary, a four-byte big-endian offset from there back to the last split point (saturated at -2^31), and nothing else but the data and the leading boundary byte; a collection file written over it has the end of its header and of every block as split points. Exponents outside 12 to 30 are refused on both sides.",
  ["inputs", "histories"], "all write and read sizes, boundary exponents, split placements and seek offsets",
  "One stream shorter than the first boundary is written and read.",
  ["collection.py"], [("_BoundaryWriter.write/_write_boundary/split", "py/docria/collection.py"), ("_BoundaryReader.read/seek/tell", "py/docria/collection.py"), ("MsgpackDocumentWriter.flush (split)", "py/docria/collection.py")], (),
  ["_BoundaryWriter", "_BoundaryReader"])
p("C12", "Partial access to an encoded document agrees with full decoding",
  "For an encoded document, reading only its properties (all or chosen keys), schema, texts (all or chosen names), a chosen set of layers that refer only to each other, or the whole document, in any order and repeatedly, gives the same as decoding the whole document and selecting. Wrapping, unwrapping and copying through pickling state keep the encoded bytes, the reference and the content, for encoded and decoded documents alike.",
  ["inputs", "histories"], "all documents and all sequences of partial reads",
  "Partial access is not tested at all.",
  ["codec.py", "model.py"], [("MsgpackDocument._parse_state and accessors", "py/docria/codec.py"), ("decode_property/decode_texts/decode_schema/decode_layer", "py/docria/codec.py"), ("__getstate__/__setstate__", "py/docria/codec.py, py/docria/model.py")], (),
  ["MsgpackDocument.properties/schema/texts/document"])
p("C13", "Property index search finds exactly the matching documents",
  "Searching an index built over a collection file with one or more property conditions yields exactly the documents whose properties satisfy all of them, each once, in file order, fully decoded or lazily, with contents as stored; an unknown property or value finds nothing. Searching an index over several files, or over all the docria files of a directory indexed by worker processes that finish in any order, yields the union over its files, with paths taken relative to the index's base path.",
  ["inputs", "histories"], "all property assignments, block layouts and condition sets",
  "The index is not tested.",
  ["collection.py"], [("DocumentFileIndex.build/search", "py/docria/collection.py"), ("DocumentIndex.add/search", "py/docria/collection.py")], (),
  ["DocumentFileIndex.search", "DocumentIndex.search"])
p("C14", "Grouping by span puts each node in exactly the right groups",
  "Every group node with a span yields one group, in order of group start, and the group holds, per layer and once each, exactly the layer nodes whose span intersects the group span, or, with cover resolution, those of them lying fully within it. An empty span at a position intersects a non-empty one when the position is inside it (its start included, its stop excluded) and another empty one at the same position. Nodes without a span are ignored, and groups without any member are left out exactly when empty groups are not requested.",
  ["inputs"], "all span configurations (nested, equal, touching, empty)",
  "One fixed configuration of eighteen spans is tested.",
  ["algorithm.py"], [("group_by_span sweep", "py/docria/algorithm.py")], (), ["group_by_span"])
p("C15", "Overlap resolution keeps the dominant, pairwise disjoint segments",
  "Resolving overlapping segments by longest-then-rightmost returns a subset of the input, each at most once and in order of position, that is pairwise non-overlapping, contains the rightmost among the longest segments, and contains every segment that overlaps no other. A segment is left out only if it overlaps one that is at least as long; an empty segment occupies its position. The node variant gives the same result on the spans of the nodes and ignores nodes without a span.",
  ["inputs"], "all segment lists",
  "One list of ten segments is tested.",
  ["algorithm.py"], [("dominant_right sweep", "py/docria/algorithm.py"), ("dominant_right_span", "py/docria/algorithm.py")], (), ["dominant_right", "dominant_right_span"])
p("C16", "Token alignment returns one ordered span per token",
  "Aligning a token sequence with a text returns exactly one span per token, each inside the given window, in non-decreasing order without overlap, and each either has the token as its string value or is empty. If the window is the tokens in order separated by characters that occur in no token, every token gets its exact position. A token that is found is placed at its nearest occurrence. A token gets an empty span only if it does not occur in the rest of the window or one of the next k tokens occurs closer, in which case it does give way, unless an earlier token already has.",
  ["inputs"], "all texts, token lists, windows and look-ahead limits",
  "Four fixed examples are tested.",
  ["algorithm.py"], [("sequence_to_textspans", "py/docria/algorithm.py")], (), ["sequence_to_textspans"])
p("C17", "Span translation maps offsets through the mapping exactly",
  "Given a mapping of non-overlapping intervals of an extracted text to an original text, translating a non-empty span whose first and last characters lie in mapped intervals gives the span from the image of its first character to just after the image of its last character. Spans already translated are left untouched, and a span that starts or ends outside every interval, or an overlapping mapping, is refused.",
  ["inputs"], "all mappings and spans",
  "One mapping with three intervals and four spans is tested.",
  ["algorithm.py"], [("span_translate", "py/docria/algorithm.py")], (), ["span_translate"])
p("C18", "Graph traversals visit every reachable node exactly once",
  "On every graph, cycles, self-loops and shared children included, breadth-first and depth-first traversal visit exactly the nodes reachable from the start, each once, and report those accepted by the result filter: breadth-first with shortest distance and in non-decreasing distance, depth-first in pre-order following child order. The leaf traversal reports exactly the reachable nodes without outgoing links. The children function over several fields yields the children of the node itself, field by field.",
  ["inputs"], "all graphs",
  "The graph test is empty.",
  ["algorithm.py"], [("bfs, dfs, dfs_leaves, children_of", "py/docria/algorithm.py")], (), ["bfs", "dfs", "dfs_leaves", "children_of"])
p("C19", "Schema changes and default values apply to all and only the right nodes",
  "Adding a field with initialisation sets its default, if it has one, on all existing nodes, and nodes added later through field values without one get it too; an explicit value of a node added later always wins. Removing a field removes its data unless asked to keep it; adding an existing field is refused and changes nothing. Removing a layer that other layers refer to (by reference, list or node span) is refused unless cascading, which removes exactly the referring fields, and reports whether a layer was removed; every declared default that was accepted is itself valid for its type.",
  ["inputs", "histories"], "all field types, defaults, layers and orders of changes",
  "One test adds three fields; removal, cascade and default values are untested.",
  ["model.py"], [("add_field/remove_field", "py/docria/model.py"), ("Document.remove_layer", "py/docria/model.py"), ("DataTypes factories", "py/docria/model.py")], (),
  ["NodeLayerCollection.add_field", "Document.remove_layer", "DataTypes"])
p("C20", "XML export is faithful and well-formed",
  "Exporting a valid document to XML yields one element per layer and node, in order, with every set value readable from it: strings with each character that XML allows preserved and every other replaced by one space (in texts, values, properties, names and the document id alike), spans as segment positions whose segments join to the span's string, references by the position of the target node in its layer, node spans by layer name and position, and each node with an id of its own made of the document id, the layer name and its position. The segments of each text join to the whole text, the schema lists every field with its referenced layer or text and its default, and the output parses as XML, in plain and verbose modes (field names being XML names).",
  ["inputs"], "all documents and all Unicode characters",
  "The XML codec is not tested.",
  ["codec.py"], [("XmlCodec.encode_intermediate/encode_tree/_string_encoder", "py/docria/codec.py")], (), ["XmlCodec.encode_tree", "XmlCodec.encode_utf8string"])
p("C21", "Table rendering never fails, respects its limits and escapes HTML",
  "Rendering any table with a header as text or HTML succeeds for every setting of the limits on rows, column width and display width (or none); every column is shown exactly once and every row, or as many of the first and last rows as allowed with an elision mark between them when there are more. Text in a cell is shown whole when it fits the column width and display width, and otherwise as its beginning and end around an ellipsis within that width; columns are wrapped onto further lines so that each line holds as many as the display width allows, at least one. In HTML, cell text (cut in the same way), captions, row names and links appear exactly as given and never introduce markup, and URNs of Wikidata and Wikipedia become links to them; limit settings accept exactly the documented values and read back as set. Documents, layers, nodes, node lists, spans, fields and queries can always be printed.",
  ["inputs", "configurations"], "all cell contents, table shapes and limit settings",
  "Rendering is not tested.",
  ["printout.py"], [("truncate, Table.render_text/render_html, PrintOptions", "py/docria/printout.py")], (), ["Table", "PrintOptions"])
p("C22", "Type inference and merging are sound",
  "The type inferred for a value (integers of at most 64 bits) accepts that value, with boolean, integer, float, string, binary, span, node, node list and node span told apart. Merging two numeric types gives the same type in either order, at least as wide as both in the order boolean, 32-bit, 64-bit, float, and merging is associative; equal types have equal hashes. A node list built from nodes of several layers has, for each field occurring in them, a type able to hold all its declared types, or is refused when there is none.",
  ["inputs"], "all values, all pairs and triples of types, all node lists",
  "Type handling is not tested (the typing test is empty).",
  ["model.py"], [("DataTypes.typeof", "py/docria/model.py"), ("DataType.cast_up/cast_up_possible/__eq__/__hash__", "py/docria/model.py"), ("NodeList.__init__", "py/docria/model.py")], (), ["DataTypes.typeof", "DataType.cast_up", "NodeList"])
p("C23", "Tar collections return every document in order",
  "Writing documents, decoded or already encoded, to a tar collection and reading it back yields exactly those documents in order and unchanged, with or without a root directory, and entries that are not files are skipped.",
  ["inputs", "histories"], "all document sequences and sizes",
  "The tar format is not tested.",
  ["collection.py"], [("TarMsgpackWriter/TarMsgpackReader", "py/docria/collection.py")], (), ["TarMsgpackReader"])
p("C24", "A restored document is independent of the original and behaves like it",
  "A document restored by decoding (binary, JSON or through a wrapped document), pickling, copying or deep copying has the same properties, texts, schema and node values as the original at that moment, references between its nodes and spans over its texts being to its own, and shares no layer, node, text or property value with it, nor with another document restored from the same encoding: editing any of them never changes the others. Every sequence of edits (of nodes, values, references, fields, layers, texts, properties) has the same outcome on both, refusals included, and leaves them equal, with equal encodings. A document that cannot be encoded is refused for pickling and copying too, and left as it was.",
  ["inputs", "histories"], "all documents, ways of restoring and edit sequences",
  "Tests compare a few decoded values and never edit a decoded or pickled document.",
  ["model.py", "codec.py"], [("Document.__getstate__/__setstate__", "py/docria/model.py"), ("MsgpackCodec.decode", "py/docria/codec.py"), ("NodeLayerCollection.unsafe_initialize", "py/docria/model.py")], (),
  ["MsgpackCodec.decode", "JsonCodec.decode", "MsgpackDocument.document", "pickle", "copy"])
p("C25", "Reading, encoding and printing never change a document",
  "Encoding a document to any format with any options (whether accepted or refused), wrapping, pickling, copying or writing it to a collection, and querying, traversing, grouping, aligning, validating, printing or converting it never changes its properties, texts, schema, the nodes of its layers and their order, or any value of a node; lists of its nodes, values or groups obtained from it are its user's own to change. The same operation asked again gives the same result. (Encoding may renumber nodes: the index of a node afterwards is its position.)",
  ["inputs", "histories"], "all documents, valid or not, and sequences of reading operations",
  "No test compares a document before and after it was read.",
  ["model.py", "codec.py", "algorithm.py"], [("Document.compile", "py/docria/model.py"), ("MsgpackCodec.encode, XmlCodec", "py/docria/codec.py"), ("group_by_span, dominant_right_span", "py/docria/algorithm.py"), ("Node/NodeCollection printing", "py/docria/model.py")], (),
  ["MsgpackCodec.encode", "JsonCodec.encode", "XmlCodec.encode_utf8string", "Document"])
p("C26", "Validity queries agree with what encoding accepts",
  "Asking a node whether it is valid never raises an error (unless exceptions are asked for) and answers true exactly when it belongs to a layer and each value it has for a declared field has the declared type, which is exactly when encoding accepts those values; asked with exceptions, and asking the layer, an error is raised exactly for the others. Validating a node list, slice, node span or query result raises an assertion error exactly when one of its nodes has such a value. A node is dangling exactly when it was never added or has been removed (by any means), and no longer once it is added. Asking changes nothing. (A boolean given for an integer field is not judged.)",
  ["inputs", "histories"], "all field types, values of any kind and node states",
  "No test asks whether a node is valid.",
  ["model.py"], [("Node.is_valid/is_dangling", "py/docria/model.py"), ("NodeLayerCollection.validate", "py/docria/model.py"), ("NodeCollection.validate", "py/docria/model.py"), ("DataType*.is_valid", "py/docria/model.py")], (),
  ["Node.is_valid", "NodeLayerCollection.validate", "NodeCollection.validate"])
p("C27", "Data frames and printed schemas hold exactly the layer's data",
  "Converting a layer to a data frame gives one row per node, in layer order and whatever was removed before, and one column per field, in schema order or as requested (none included), holding exactly the nodes' values, with none where a node has no value; spans appear as such or, when asked for, as their strings; the node itself is in a last column exactly when it is wanted. An undeclared field is refused. Printing the schema gives each layer, in order of name, and each of its fields, in order, with its type and every option (default, layer, text).",
  ["inputs", "histories"], "all layers with gaps, field selections and options, all schemas",
  "Neither function is tested.",
  ["model.py"], [("NodeLayerCollection.to_pandas", "py/docria/model.py"), ("Document.printschema", "py/docria/model.py")], (),
  ["NodeLayerCollection.to_pandas", "Document.printschema"])
p("C28", "Equivalent ways to reach the same data agree",
  "Whatever is set, updated or deleted on a node, its items, its member access (fld, also one obtained earlier; a missing field reads as None), get, get_prop (with or without a default), the keys, and the field as read through the layer, node lists and node spans give the same values, and deleting a missing field is a key error. A node list, however made, behaves as the Python list of its nodes: length, iteration, first, last, membership, index, slice and list of indices give the same nodes or the same errors, new lists keep the field types, and changing one changes nothing else. The layers and texts of a document by item, membership and dictionaries are those added and not removed; a layer that others refer to is not deleted; the main text can be set once, from a string or a text named main. Field types made from a layer or text equal those made from its name, and a default value is the given one, the type's own empty value when left out, or none when None. A chain of functions is their composition in order, also as a sort key or in a query.",
  ["inputs", "histories"], "all sequences of changes, values, indices, slices and documents",
  "The tests read a few fixed values through one way at a time; member access, node lists by index, chains and getters are never tested.",
  ["model.py", "algorithm.py"], [("Node.fld", "py/docria/model.py"), ("NodeList", "py/docria/model.py"), ("NodeFieldCollection", "py/docria/model.py"), ("Document.__getitem__/__delitem__/__contains__/maintext", "py/docria/model.py"), ("DataTypes", "py/docria/model.py"), ("get_prop/chain", "py/docria/algorithm.py")], (),
  ["NodeList.__getitem__", "NodeFieldCollection.__getitem__", "Document.__getitem__", "DataTypes.textspan", "chain", "get_prop"])
p("C29", "The Java port groups by span and resolves overlaps by the same rules",
  "Of segments, nodes with spans, or nodes with node spans over a token layer, given in any order, the Java resolution of overlaps keeps a set of pairwise disjoint ones that is exactly the one defined by taking candidates from the rightmost end, longest first, among those that do not overlap one already taken; nodes without a value in the span field are left out. The Java query that groups nodes by span puts into the group of each group node, for every layer, exactly the nodes whose span lies within (or intersects, as asked for) its span, an empty span counting as the position it stands at; groups come in order of their spans, empty groups are kept only when wanted, and it makes no difference whether layers are named, given as nodes or as layers. Neither changes the document.",
  ["inputs"], "all spans, coinciding, nested, adjacent and empty, in any order",
  "The Java tests try one arrangement each and do not run here.",
  ["java"], [("DominantRight", "java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java"), ("GroupBySpan", "java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java"), ("Text.span", "java/core/src/main/java/se/lth/cs/docria/Text.java")], (),
  ["DominantRight.resolve", "GroupBySpan.query", "Text.span"])
p("C30", "The Java port reads and writes the same streams and files",
  "What the Java boundary writer produces from any writes, single bytes and split points is the same physical stream that the Python format defines: the exponent (12 to 30, others are refused), then the data with a four-byte value at every multiple of the boundary that leads back to the last split point. The Java boundary reader gives back exactly that data, whoever wrote it and however it is read (any sizes, single bytes, skips, short reads of the stream below) and then ends. Document files written in Java, with any flushes, any block size, with or without boundaries and with each codec, are those the Python implementation reads, and the reverse; any mix of reading, skipping documents or blocks and counting delivers each document once, in order and unchanged; and two threads that fetch blocks get different blocks, each of them whole.",
  ["inputs", "schedules"], "all documents, block sizes, flushes, write and read sizes and mixes of operations",
  "The Java tests write and read a single file in one way and do not run here.",
  ["java"], [("BoundaryWriter", "java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java"), ("BoundaryReader", "java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java"), ("DocumentStreamWriter", "java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java"), ("DocumentStreamReader", "java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java"), ("MsgpackDocumentStreamReader", "java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java"), ("DeflateCodec/ByteOutputBuffer", "java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java")], (),
  ["BoundaryWriter.write", "BoundaryReader.read/skip", "DocumentStreamWriter.flush", "DocumentStreamReader.skip/nextBlock/nextRaw", "MsgpackDocumentStreamReader.nextBlock/next"])
p("C31", "A layer of the Java port is the ordered set of the nodes added and not removed",
  "After any operations on a layer of the Java library (adding nodes one by one or several together, removing one or several, keeping only some, sorting, compacting, clearing, encoding) the layer holds exactly the nodes added and not removed since, in the order added or sorted (equal ones keep their order). Its size, iteration, streams, first and last node, membership, access by id and every node span over it agree, also when the layer compacts itself; each call returns whether it changed the layer; nodes that were removed belong to no layer and can be added again; adding a node that is in a layer, removing one that is not and node spans across layers are refused and change nothing.",
  ["inputs", "histories"], "all histories of operations, nodes and sort keys",
  "The Java tests do not remove nodes and do not run here; the results depend on what was removed before and on when the layer compacts itself.",
  ["java"], [("Layer", "java/core/src/main/java/se/lth/cs/docria/Layer.java"), ("NodeSpan", "java/core/src/main/java/se/lth/cs/docria/NodeSpan.java"), ("Node", "java/core/src/main/java/se/lth/cs/docria/Node.java")], (),
  ["Layer.add", "Layer.remove/removeAll/retainAll/clear", "Layer.sort/compact", "Layer.nodespan/nodespanForEach/first/last", "NodeSpan.<init>"])
p("C32", "Documents pass between the Java port and Python unchanged",
  "A document built in Java and encoded is read by Python as the same document, and the reverse; decoding and encoding again in Java gives the same bytes. This covers texts and every span in them, every kind of field (whole and floating point numbers, booleans, strings, bytes, extended data, embedded documents, spans, references, lists of references, node spans), set or not set and whatever was removed before, the declared types with their defaults, and properties of the plain kinds. A MsgpackDocument of the Java library gives the properties and the schema of the document, and its four compartments joined are the document again.",
  ["inputs"], "all documents (contents, sizes, fields set and not set)",
  "The Java tests write one document and compare a few values, do not run here, and nothing compares the two implementations.",
  ["java", "py"], [("MsgpackCodec (Java)", "java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java"), ("MsgpackDocument (Java)", "java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java"), ("Document.compile (Java)", "java/core/src/main/java/se/lth/cs/docria/Document.java"), ("Text.compile (Java)", "java/core/src/main/java/se/lth/cs/docria/Text.java"), ("MsgpackCodec (Python)", "py/docria/codec.py")], (),
  ["MsgpackCodec.encode/decode", "MsgpackCodec.decodeProperties/decodeSchema/decodeTexts/decodeLayer/resolveReferences", "MsgpackDocument.properties/schema/*Compartment", "Document.compile", "Text.compile"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
