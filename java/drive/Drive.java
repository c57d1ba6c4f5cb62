package drive;

import org.msgpack.core.MessageUnpacker;
import se.lth.cs.docria.DataType;
import se.lth.cs.docria.DataTypeName;
import se.lth.cs.docria.DataTypes;
import se.lth.cs.docria.Document;
import se.lth.cs.docria.Layer;
import se.lth.cs.docria.MsgpackCodec;
import se.lth.cs.docria.MsgpackDocument;
import se.lth.cs.docria.Node;
import se.lth.cs.docria.NodeSpan;
import se.lth.cs.docria.Schema;
import se.lth.cs.docria.Span;
import se.lth.cs.docria.Text;
import se.lth.cs.docria.Value;
import se.lth.cs.docria.exceptions.DataInconsistencyException;
import se.lth.cs.docria.algorithms.DominantRight;
import se.lth.cs.docria.algorithms.GroupBySpan;
import se.lth.cs.docria.io.BoundaryReader;
import se.lth.cs.docria.io.BoundaryWriter;
import se.lth.cs.docria.io.ByteOutputBuffer;
import se.lth.cs.docria.io.DocumentStreamBoundaryWriter;
import se.lth.cs.docria.io.DocumentStreamReader;
import se.lth.cs.docria.io.DocumentStreamWriter;
import se.lth.cs.docria.io.MsgpackDocumentStreamReader;
import se.lth.cs.docria.values.DocumentValue;
import se.lth.cs.docria.values.ExtensionValue;
import se.lth.cs.docria.values.NodeArrayValue;
import se.lth.cs.docria.values.NullValue;
import se.lth.cs.docria.values.Values;

import java.io.ByteArrayInputStream;
import java.io.ByteArrayOutputStream;
import java.io.IOException;
import java.io.InputStream;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.Iterator;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.stream.Collectors;
import java.util.stream.Stream;

/** Scenarios over the code under test: plain values in, plain values out. */
public class Drive {
    public static int[] dominant(int[] starts, int[] stops) {
        List<DominantRight.Segment<Integer>> segs = new ArrayList<>();
        for (int i = 0; i < starts.length; i++)
            segs.add(new DominantRight.Segment<>(starts[i], stops[i], i));
        List<Integer> out = DominantRight.resolve(segs);
        int[] r = new int[out.size()];
        for (int i = 0; i < r.length; i++)
            r[i] = out.get(i);
        return r;
    }

    private static int[] places(List<Node> some, List<Node> all) {
        int[] r = new int[some.size()];
        for (int i = 0; i < r.length; i++) {
            r[i] = -1;
            for (int k = 0; k < all.size(); k++)
                if (all.get(k) == some.get(i))
                    r[i] = k;
        }
        return r;
    }

    private static List<Node> spans(Layer layer, Text text, String field, int[] starts, int[] stops, Span decoy, String... decoys) {
        List<Node> nodes = new ArrayList<>();
        for (int i = 0; i < starts.length; i++) {
            Node n = layer.create().insert();
            if (starts[i] >= 0)
                n.put(field, text.span(starts[i], stops[i]));
            for (String d : decoys)
                n.put(d, decoy);
            nodes.add(n);
        }
        return nodes;
    }

    /** a start of -1 is a node without a span */
    public static int[] dominantNodes(String s, int[] starts, int[] stops) {
        Document doc = new Document();
        Text text = doc.add(new Text("main", s));
        Layer layer = doc.add(Layer.builder("l").addField("seg", text.spanType()).build());
        List<Node> nodes = spans(layer, text, "seg", starts, stops, null);
        return places(DominantRight.resolve(nodes, "seg"), nodes);
    }

    /** nodes over the given runs of n tokens, some of which are removed first; a left of -1 is a node without one */
    public static int[] dominantNodeSpans(int n, int[] removed, int[] lefts, int[] rights) {
        Document doc = new Document();
        Layer tokens = doc.add(Layer.builder("token").build());
        Layer layer = doc.add(Layer.builder("l").addField("seg", DataTypes.nodespan("token")).build());
        List<Node> toks = new ArrayList<>();
        for (int i = 0; i < n; i++)
            toks.add(tokens.create().insert());
        for (int i : removed)
            tokens.remove(toks.get(i));
        List<Node> nodes = new ArrayList<>();
        for (int i = 0; i < lefts.length; i++) {
            Node.Builder b = Node.builder(layer);
            if (lefts[i] >= 0)
                b.put("seg", toks.get(lefts[i]), toks.get(rights[i]));
            Node x = b.build();
            layer.add(x);
            nodes.add(x);
        }
        return places(DominantRight.resolveNodespans(nodes, "seg"), nodes);
    }

    /**
     * how: 0 layers and fields, 1 lists and fields, 2 the field "text" of layers, 3 of lists, 4 names of layers and fields
     * returns the place of each group, followed by the members of layer a, -1, of layer b, -1
     */
    public static int[] group(String s, int[] gs, int[] ge, int[] as, int[] ae, int[] bs, int[] be, boolean cover, boolean empties, int how) {
        Document doc = new Document();
        Text text = doc.add(new Text("main", s));
        boolean plain = how == 2 || how == 3;
        String gf = plain ? "text" : "gs", nf = plain ? "text" : "s";
        String[] fields = plain ? new String[]{"text"} : new String[]{"text", "gs", "s"};
        List<Layer> layers = new ArrayList<>();
        List<List<Node>> nodes = new ArrayList<>();
        for (int i = 0; i < 3; i++) {
            Schema.LayerBuilder b = Layer.builder(i == 0 ? "group" : i == 1 ? "a" : "b");
            for (String f : fields)
                b.addField(f, text.spanType());
            Layer l = doc.add(b.build());
            layers.add(l);
            String[] decoys = plain ? new String[0] : new String[]{"text", i == 0 ? nf : gf};
            nodes.add(spans(l, text, i == 0 ? gf : nf, i == 0 ? gs : i == 1 ? as : bs, i == 0 ? ge : i == 1 ? ae : be,
                            plain ? null : text.span(0, s.length()), decoys));
        }
        GroupBySpan.Builder b;
        if (how == 0)
            b = GroupBySpan.builder(layers.get(0), gf).group("a", layers.get(1), nf).group(layers.get(2), nf);
        else if (how == 1)
            b = GroupBySpan.builder(nodes.get(0), gf).group("a", nodes.get(1), nf).group("b", nodes.get(2), nf);
        else if (how == 2)
            b = GroupBySpan.builder(layers.get(0)).group("a", layers.get(1)).group(layers.get(2));
        else if (how == 3)
            b = GroupBySpan.builder(nodes.get(0)).group("a", nodes.get(1)).group("b", nodes.get(2));
        else
            b = GroupBySpan.builder(doc, "group", gf).group(doc, "a", nf).group(doc, "b", nf);
        if (cover)
            b = b.resolution(GroupBySpan.Resolution.COVER);
        if (empties)
            b = b.includeEmptyGroups(true);
        List<Integer> out = new ArrayList<>();
        for (GroupBySpan.Group g : b.solve()) {
            List<Node> one = new ArrayList<>();
            one.add(g.node);
            out.add(places(one, nodes.get(0))[0]);
            if (g.content.size() != 2)
                throw new IllegalStateException("layers of a group");
            for (int i = 1; i < 3; i++) {
                int[] p = places(g.content.get(i == 1 ? "a" : "b"), nodes.get(i));
                for (int x : p)
                    out.add(x < 0 ? -2 : x);
                out.add(-1);
            }
        }
        int[] r = new int[out.size()];
        for (int i = 0; i < r.length; i++)
            r[i] = out.get(i);
        return r;
    }

    /** one write per length: -1 is the method for single bytes, -2 marks a split point; from: where in a longer array the data stands */
    public static byte[] boundaryWrite(int boundary, byte[] data, int[] lengths, int from) throws IOException {
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        BoundaryWriter w = boundary == 0 ? new BoundaryWriter(out) : new BoundaryWriter(out, boundary);
        int pos = from;
        for (int n : lengths) {
            if (n == -2)
                w.split();
            else if (n == -1) {
                w.write(data[pos]);
                pos += 1;
            } else if (n == data.length)
                w.write(data);
            else {
                w.write(data, pos, n);
                pos += n;
            }
        }
        w.close();
        return out.toByteArray();
    }

    /** A stream as files are: nothing is read for a length of 0, and a read may be short. */
    private static class Slow extends InputStream {
        private final byte[] data;
        private final int most;
        private int pos = 0;

        Slow(byte[] data, int most) {
            this.data = data;
            this.most = most;
        }

        private int take(int n) {
            n = Math.min(n, data.length - pos);
            return most > 0 ? Math.min(n, most) : n;
        }

        @Override
        public int read() {
            return pos < data.length ? data[pos++] & 0xff : -1;
        }

        @Override
        public int read(byte[] b, int off, int len) {
            if (len == 0)
                return 0;
            if (pos >= data.length)
                return -1;
            int n = take(len);
            System.arraycopy(data, pos, b, off, n);
            pos += n;
            return n;
        }

        @Override
        public long skip(long n) {
            int k = n <= 0 ? 0 : take((int) n);
            pos += k;
            return k;
        }
    }

    private static int[] results;

    /** what the operations of the scenario before have returned */
    public static int[] results() {
        return results;
    }

    /** ops: 0 reads so many bytes, 1 a single one, 2 skips so many; most: bytes per read of the stream below, 0 for no limit */
    public static byte[] boundaryRead(byte[] raw, int[] ops, int[] sizes, int most) throws IOException {
        BoundaryReader r = new BoundaryReader(new Slow(raw, most));
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        results = new int[ops.length];
        for (int i = 0; i < ops.length; i++) {
            if (ops[i] == 1) {
                results[i] = r.read();
                if (results[i] >= 0)
                    out.write(results[i]);
            } else if (ops[i] == 2)
                results[i] = (int) r.skip(sizes[i]);
            else {
                byte[] b = new byte[sizes[i] + 3];
                results[i] = r.read(b, 3, sizes[i]);
                if (results[i] > 0)
                    out.write(b, 3, results[i]);
            }
        }
        return out.toByteArray();
    }

    public static boolean exponent(int boundary, boolean writer) throws IOException {
        try {
            if (writer)
                new BoundaryWriter(new ByteArrayOutputStream(), boundary);
            else
                new BoundaryReader(new ByteArrayInputStream(new byte[]{(byte) boundary, 1, 2, 3}));
            return true;
        } catch (IOException | IllegalArgumentException e) {
            return false;
        }
    }

    public static long logical(int boundary, long start, long stop) {
        return BoundaryReader.computeLength(boundary, start, stop);
    }

    private static byte[][] parts(byte[] data, int[] lengths) {
        byte[][] r = new byte[lengths.length][];
        int pos = 0;
        for (int i = 0; i < lengths.length; i++) {
            r[i] = Arrays.copyOfRange(data, pos, pos + lengths[i]);
            pos += lengths[i];
        }
        return r;
    }

    private static DocumentStreamWriter.Codec codec(String name) {
        return name.equals("none") ? DocumentStreamWriter.Codec.NONE
                                   : name.equals("zip") ? DocumentStreamWriter.Codec.DEFLATE : DocumentStreamWriter.Codec.DEFLATE_SQUARED;
    }

    /** A file of the documents given as bytes; boundary: 0 for none; flush: bit i for a flush after document i */
    public static byte[] fileWrite(byte[] data, int[] lengths, int per, String codec, int boundary, int flush) throws IOException {
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        DocumentStreamWriter w = boundary > 0 ? new DocumentStreamBoundaryWriter(boundary, out, per, codec(codec))
                                              : new DocumentStreamWriter(out, per, codec(codec));
        byte[][] docs = parts(data, lengths);
        for (int i = 0; i < docs.length; i++) {
            w.write(docs[i]);
            if ((flush >> i & 1) != 0)
                w.flush();
        }
        w.close();
        return out.toByteArray();
    }

    /**
     * ops: 0 next document (its length, -1 at the end), 1 skip, 2 skip so many, 3 skip a block, 4 count the rest
     */
    public static byte[] fileRead(byte[] raw, int[] ops, int[] sizes, boolean boundary, int most) throws IOException {
        InputStream in = new Slow(raw, most);
        DocumentStreamReader r = new DocumentStreamReader(boundary ? new BoundaryReader(in) : in);
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        results = new int[ops.length];
        for (int i = 0; i < ops.length; i++) {
            if (ops[i] == 0) {
                byte[] d = r.nextRaw();
                results[i] = d == null ? -1 : d.length;
                if (d != null)
                    out.write(d);
            } else if (ops[i] == 1)
                results[i] = r.skip() ? 1 : 0;
            else if (ops[i] == 2)
                results[i] = (int) r.skip((long) sizes[i]);
            else if (ops[i] == 3)
                results[i] = r.skipBlock() ? 1 : 0;
            else
                results[i] = (int) r.count();
        }
        r.close();
        return out.toByteArray();
    }

    /** as fileRead, with the reader of undecoded documents; 5 reads a whole block: the number of its documents, -1 at the end */
    public static byte[] fileReadPlain(byte[] raw, int[] ops, int[] sizes, boolean boundary, int most) throws IOException {
        InputStream in = new Slow(raw, most);
        MsgpackDocumentStreamReader r = new MsgpackDocumentStreamReader(boundary ? new BoundaryReader(in) : in);
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        results = new int[ops.length];
        for (int i = 0; i < ops.length; i++) {
            if (ops[i] == 0) {
                MsgpackDocument d = r.next();
                results[i] = d == null ? -1 : d.data().length;
                if (d != null)
                    out.write(d.data());
            } else if (ops[i] == 1)
                results[i] = r.skip() ? 1 : 0;
            else if (ops[i] == 2)
                results[i] = (int) r.skip((long) sizes[i]);
            else if (ops[i] == 3)
                results[i] = r.skipBlock() ? 1 : 0;
            else if (ops[i] == 5) {
                Stream<MsgpackDocument> s = r.nextBlock();
                results[i] = -1;
                if (s != null) {
                    results[i] = 0;
                    for (Iterator<MsgpackDocument> it = s.iterator(); it.hasNext(); results[i]++)
                        out.write(it.next().data());
                }
            } else
                results[i] = (int) r.count();
        }
        r.close();
        return out.toByteArray();
    }

    /** Two readers of blocks, of which the second runs when the first has come to step `at`. What each got: lengths, first then second. */
    public static byte[] fileShared(byte[] raw, int at) throws IOException {
        final MsgpackDocumentStreamReader r = new MsgpackDocumentStreamReader(new Slow(raw, 0));
        final List<Stream<MsgpackDocument>> got = new ArrayList<>();
        if (at == 0)
            got.add(r.nextBlock());
        else
            MessageUnpacker.meanwhile = () -> got.add(r.nextBlock());
        Stream<MsgpackDocument> mine = r.nextBlock();
        MessageUnpacker.meanwhile = null;
        if (at == 2 || got.isEmpty())
            got.add(r.nextBlock());
        got.add(0, mine);
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        for (Stream<MsgpackDocument> s : got)
            for (Iterator<MsgpackDocument> it = s == null ? Collections.<MsgpackDocument>emptyIterator() : s.iterator(); it.hasNext(); )
                out.write(it.next().data());
        return out.toByteArray();
    }

    /** ops: -1 writes a single byte, others so many */
    public static byte[] buffer(int size, byte[] data, int[] ops) throws IOException {
        ByteOutputBuffer out = size == 0 ? new ByteOutputBuffer() : new ByteOutputBuffer(size);
        int pos = 0;
        for (int n : ops) {
            if (n == -1)
                out.write(data[pos++]);
            else {
                out.write(data, pos, n);
                pos += n;
            }
        }
        if (out.length() != pos)
            throw new IllegalStateException("length");
        return out.toByteArray();
    }

    private static List<Node> pick(List<Node> all, int bits) {
        List<Node> r = new ArrayList<>();
        for (int i = 0; i < all.size(); i++)
            if ((bits >> i & 1) != 0)
                r.add(all.get(i));
        return r;
    }

    /** every way to look at a layer, compared; -1 when they agree and else the number of the one that does not */
    private static int disagrees(Layer layer, List<Node> all) {
        List<Node> seen = new ArrayList<>();
        for (Node n : layer)
            seen.add(n);
        int k = seen.size();
        if (layer.size() != k || layer.isEmpty() != (k == 0))
            return 0;
        if (!same(seen, layer.stream().collect(Collectors.toList())) || !same(seen, layer.stream(Node.class).collect(Collectors.toList())))
            return 1;
        List<Node> other = new ArrayList<>();
        layer.forEach(other::add);
        if (!same(seen, other) || !same(seen, new ArrayList<>(layer)))
            return 2;
        if (layer.first().orElse(null) != (k == 0 ? null : seen.get(0)) || layer.last().orElse(null) != (k == 0 ? null : seen.get(k - 1)))
            return 3;
        int last = -1;
        for (Node n : seen) {
            if (n.id() <= last || layer.get(n.id()) != n)
                return 4;
            last = n.id();
        }
        for (Node n : all) {
            boolean in = false;
            for (Node m : seen)
                in |= m == n;
            if (layer.contains(n) != in || n.isValid() != in || (n.layer() == layer) != in)
                return 5;
        }
        for (int i = 0; i < k; i++)
            for (int j = 0; j < k; j += k > 6 && i > 0 ? k : k > 6 ? 5 : 1) {
                if (i > j) {
                    try {
                        new NodeSpan(seen.get(i), seen.get(j));
                        return 6;
                    } catch (DataInconsistencyException e) {
                        continue;
                    }
                }
                NodeSpan span = new NodeSpan(seen.get(i), seen.get(j));
                List<Node> part = seen.subList(i, j + 1), got = new ArrayList<>();
                for (Node n : span)
                    got.add(n);
                if (!same(part, got) || !same(part, Arrays.asList(span.nodeArrayValue())))
                    return 7;
                got.clear();
                span.forEach(got::add);
                if (!same(part, got) || !same(part, layer.nodespan(seen.get(i), seen.get(j)).collect(Collectors.toList())))
                    return 8;
            }
        return -1;
    }

    private static boolean same(List<Node> a, List<Node> b) {
        if (a.size() != b.size())
            return false;
        for (int i = 0; i < a.size(); i++)
            if (a.get(i) != b.get(i))
                return false;
        return true;
    }

    /**
     * values: the field x of all nodes, of which the first `start` are added at first.
     * After each operation (looked at from number `from` on): what it returned (-2 for a refusal), a disagreement or -1, the number of the nodes and which they are.
     */
    public static int[] layer(int[] values, int start, int[] ops, int[] args, int from) {
        Document doc = new Document();
        Layer layer = doc.add(Layer.builder("l").addField("x", DataTypes.INT_32).build());
        Layer other = doc.add(Layer.builder("other").build());
        Node foreign = other.create().insert();
        List<Node> all = new ArrayList<>();
        for (int v : values)
            all.add(Node.builder(layer).put("x", v).build());
        for (int i = 0; i < start; i++)
            layer.add(all.get(i));
        List<Integer> out = new ArrayList<>();
        for (int i = 0; i < ops.length; i++) {
            int r = 0, x = args[i];
            try {
                switch (ops[i]) {
                    case 0: r = layer.add(all.get(x)) ? 1 : 0; break;
                    case 1: r = layer.remove((Node) all.get(x)) == all.get(x) ? 1 : 0; break;
                    case 2: r = layer.remove((Object) all.get(x)) ? 1 : 0; break;
                    case 3: r = layer.removeAll(pick(all, x)) ? 1 : 0; break;
                    case 4: r = layer.retainAll(pick(all, x)) ? 1 : 0; break;
                    case 5: layer.sort((a, b) -> Integer.compare(a.getInt("x"), b.getInt("x"))); break;
                    case 6: layer.compact(); break;
                    case 7: layer.clear(); break;
                    case 8: r = layer.addAll(pick(all, x)) ? 1 : 0; break;
                    case 9: r = layer.remove((Object) foreign) || layer.remove((Object) "l") || layer.contains(foreign) ? 1 : 0; break;
                    case 10: layer.remove(foreign); break;
                    case 11: new NodeSpan(layer.first().get(), foreign); break;
                    default: doc.compile(); break;
                }
            } catch (IllegalStateException | IllegalArgumentException | DataInconsistencyException | java.util.NoSuchElementException e) {
                r = -2;
            }
            out.add(r);
            out.add(i < from ? -1 : disagrees(layer, all));
            out.add(layer.size());
            for (Node n : layer)
                for (int k = 0; k < all.size(); k++)
                    if (all.get(k) == n)
                        out.add(k);
        }
        int[] r = new int[out.size()];
        for (int i = 0; i < r.length; i++)
            r[i] = out.get(i);
        return r;
    }

    private static DataType columnType(String kind, boolean dflt) {
        switch (kind) {
            case "int": return dflt ? new DataType.Builder(DataTypeName.INT).addArg("default", 7).build() : DataTypes.INT_32;
            case "long": return dflt ? new DataType.Builder(DataTypeName.LONG).addArg("default", 1L << 40).build() : DataTypes.INT_64;
            case "double": return dflt ? new DataType.Builder(DataTypeName.DOUBLE).addArg("default", 0.1).build() : DataTypes.FLOAT_64;
            case "bool": return dflt ? new DataType.Builder(DataTypeName.BOOL).addArg("default", true).build() : DataTypes.BOOLEAN;
            case "str": return dflt ? new DataType.Builder(DataTypeName.STRING).addArg("default", "x").build() : DataTypes.STRING;
            case "bin": return DataTypes.BINARY;
            case "ext": return DataTypes.ext("some");
            case "doc": return DataTypes.ext("doc");
            case "span": return DataTypes.span("main");
            case "side": return DataTypes.span("side");
            case "node": return DataTypes.noderef("t");
            case "array": return DataTypes.noderef_array("t");
            default: return DataTypes.nodespan("t");
        }
    }

    /** a document with a layer "l" that has a field for each of the kinds, and a layer "t" of four nodes of which one is removed */
    private static Document codecDoc(String[] kinds, int nodes, int[] have, int[] a, int[] b, long[] v, String[] s, byte[] data, int[] lens,
                                     int dflt, int gone, String[] texts) {
        Document doc = new Document();
        for (int i = 0; i < texts.length; i++)
            doc.add(new Text(i == 0 ? "main" : "side", texts[i]));
        Layer t = doc.add(Layer.create("t").build());
        Node[] to = new Node[4];
        for (int i = 0; i < 4; i++)
            t.add(to[i] = Node.builder(t).build());
        if (gone >= 0)
            t.remove(to[gone]);
        Schema.LayerBuilder lb = Layer.create("l");
        for (int k = 0; k < kinds.length; k++)
            lb.addField("f" + k, columnType(kinds[k], dflt == 1));
        Layer l = doc.add(lb.build());
        int at = 0;
        byte[][] blobs = parts(data, lens);
        for (int i = 0; i < nodes; i++) {
            Node n = Node.builder(l).build();
            for (int k = 0; k < kinds.length; k++, at++) {
                if (have[at] == 0)
                    continue;
                String f = "f" + k;
                switch (kinds[k]) {
                    case "int": n.put(f, (int) v[at]); break;
                    case "long": n.put(f, v[at]); break;
                    case "double": n.put(f, Double.longBitsToDouble(v[at])); break;
                    case "bool": n.put(f, v[at] == 1); break;
                    case "str": n.put(f, s[at]); break;
                    case "bin": n.put(f, blobs[at]); break;
                    case "ext": n.put(f, new ExtensionValue("some", blobs[at])); break;
                    case "doc": {
                        Document d = new Document();
                        d.add(new Text("main", s[at]));
                        n.put(f, new DocumentValue(d));
                        break;
                    }
                    case "span": n.put(f, doc.text("main").span(a[at], b[at])); break;
                    case "side": n.put(f, doc.text("side").span(a[at], b[at])); break;
                    case "node": n.put(f, to[a[at]]); break;
                    case "array": {
                        List<Node> some = new ArrayList<>();
                        for (int x = a[at]; x > 0; x /= 5)
                            some.add(to[x % 5 - 1]);
                        n.put(f, new NodeArrayValue(some));
                        break;
                    }
                    default: n.put(f, new NodeSpan(to[a[at]], to[b[at]])); break;
                }
            }
            l.add(n);
        }
        return doc;
    }

    public static byte[] codecEncode(String[] kinds, int nodes, int[] have, int[] a, int[] b, long[] v, String[] s, byte[] data, int[] lens,
                                     int dflt, int gone, String[] texts) {
        Document doc = codecDoc(kinds, nodes, have, a, b, v, s, data, lens, dflt, gone, texts);
        return MsgpackCodec.encode(doc).toByteArray();
    }

    private static int typed(Document doc) {
        for (Layer l : doc.layers())
            for (Node n : l)
                for (Map.Entry<String, DataType> e : l.schema().fields().entrySet())
                    if (n.has(e.getKey())) {
                        Value x = n.get(e.getKey());
                        if (e.getValue().name() == DataTypeName.NODE_ARRAY && x.nodeArrayValue().length == 0)
                            continue;
                        if (x.type().name() != e.getValue().name())
                            return 1;
                    }
        return 0;
    }

    /** decodes and encodes again */
    public static byte[] codecAgain(byte[] raw) {
        Document doc = MsgpackCodec.decode(raw);
        results = new int[]{typed(doc)};
        return MsgpackCodec.encode(doc).toByteArray();
    }

    private static void propValue(Document doc, String key, String kind, long v, String s, byte[] blob) {
        Value x;
        switch (kind) {
            case "int": x = Values.get((int) v); break;
            case "long": x = Values.get(v); break;
            case "double": x = Values.get(Double.longBitsToDouble(v)); break;
            case "bool": x = Values.get(v == 1); break;
            case "str": x = Values.get(s); break;
            case "bin": x = Values.get(blob); break;
            case "nil": x = NullValue.INSTANCE; break;
            case "ext": x = new ExtensionValue("some", blob); break;
            default: {
                Document d = new Document();
                d.add(new Text("main", s));
                x = new DocumentValue(d);
                break;
            }
        }
        doc.props().put(key, x);
    }

    public static byte[] codecProps(String[] keys, String[] kinds, long[] v, String[] s, byte[] data, int[] lens, int layers) {
        Document doc = new Document();
        byte[][] blobs = parts(data, lens);
        for (int i = 0; i < kinds.length; i++)
            propValue(doc, keys[i], kinds[i], v[i], s[i], blobs[i]);
        for (int i = 0; i < layers; i++) {
            Layer l = doc.add(Layer.create("l" + i).build());
            for (int k = 0; k < i; k++)
                l.add(Node.builder(l).build());
        }
        return MsgpackCodec.encode(doc).toByteArray();
    }

    /** the kinds of the properties of a decoded document */
    public static int codecKind(byte[] raw, String key, String kind, long v, String s, byte[] blob) {
        for (int way = 0; way < 3; way++) {
            Map<String, Value> props = way == 0 ? MsgpackCodec.decode(raw).props() : way == 1 ? new MsgpackDocument(raw).properties()
                : MsgpackDocument.parsePropertyCompartment(new MsgpackDocument(raw).propertyCompartment());
            Value x = props.get(key);
            boolean ok;
            switch (kind) {
                case "int":
                case "long": ok = x.longValue() == v; break;
                case "double": ok = Double.doubleToRawLongBits(x.doubleValue()) == v; break;
                case "bool": ok = x.boolValue() == (v == 1); break;
                case "str": ok = x.type().name() == DataTypeName.STRING && x.stringValue().equals(s); break;
                case "bin": ok = x.type().name() == DataTypeName.BINARY && Arrays.equals(x.binaryValue(), blob); break;
                case "nil": ok = x instanceof NullValue; break;
                case "ext": ok = x.type().equals(DataTypes.ext("some")) && Arrays.equals(x.binaryValue(), blob); break;
                default: ok = x instanceof DocumentValue && ((DocumentValue) x).documentValue().maintext().toString().equals(s); break;
            }
            if (!ok)
                return way;
        }
        return -1;
    }

    /** the compartments, joined again */
    public static byte[] codecCompartments(byte[] raw, boolean first) {
        MsgpackDocument d = new MsgpackDocument(raw);
        if (first && d.schema() == null)
            return null;
        byte[] p = d.propertyCompartment(), sc = d.schemaCompartment(), t = d.textCompartment(), l = d.layersCompartment();
        MsgpackDocument e = new MsgpackDocument(p, sc, t, l);
        results = new int[]{typed(e.document())};
        if (!Arrays.equals(MsgpackCodec.encode(e.document()).toByteArray(), MsgpackCodec.encode(d.document()).toByteArray()))
            return null;
        List<String> types = new ArrayList<>();
        Schema s = MsgpackDocument.parseSchemaCompartment(sc, types, new TreeMap<>());
        if (s.layers().count() != types.size() || d.schema().layers().count() != types.size())
            return null;
        return e.data();
    }
}
