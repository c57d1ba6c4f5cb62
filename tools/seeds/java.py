"""Changes to the Java sources"""
FRAME = '''
import se.lth.cs.docria.*;
import se.lth.cs.docria.io.*;
import se.lth.cs.docria.algorithms.*;
import java.io.*;
import java.util.*;
import org.msgpack.core.*;

public class Demo {
    static void check(boolean c, String msg) {
        if (!c) {
            System.err.println(msg);
            System.exit(1);
        }
    }

    static byte[] data(int n) {
        byte[] b = new byte[n];
        new Random(1).nextBytes(b);
        return b;
    }

    public static void main(String[] a) throws Exception {
%s
    }
}
'''


def java(body):
    return FRAME % body


SEEDS = [
    dict(id="C29-dominant-tie", prop="C29",
         needs="two segments that start at the same offset, or overlap, of which the later has the same length",
         breaks="of equally long overlapping segments the earlier is kept instead of the rightmost",
         edits=[("algorithms/DominantRight.java", "point.segment.length() >= open.length()", "point.segment.length() > open.length()")],
         demo=java('''
        List<DominantRight.Segment<String>> s = new ArrayList<>();
        s.add(new DominantRight.Segment<>(0, 5, "left"));
        s.add(new DominantRight.Segment<>(3, 8, "right"));
        check(DominantRight.resolve(s).equals(Arrays.asList("right")), "right");
''')),
    dict(id="C29-nodespan-width", prop="C29",
         needs="node spans that share exactly one token",
         breaks="the last token of a node span is left out of its extent, so node spans that share one token are both kept",
         edits=[("algorithms/DominantRight.java", "span.getRight().id()+1, n)", "Math.max(span.getRight().id(), span.getLeft().id()+1), n)")],
         demo=java('''
        Document doc = new Document();
        Layer tok = doc.add(Layer.create("token").build());
        Node[] t = new Node[5];
        for (int i = 0; i < 5; i++)
            t[i] = tok.create().insert();
        Layer l = doc.add(Layer.create("chunk").addField("span", DataTypes.nodespan("token")).build());
        l.create().put("span", new NodeSpan(t[0], t[2])).insert();
        l.create().put("span", new NodeSpan(t[2], t[4])).insert();
        check(DominantRight.resolveNodespans(l, "span").size() == 1, "overlapping node spans");
''')),
    dict(id="C29-group-empty-stop", prop="C29",
         needs="an empty span in a grouped layer, strictly before a group",
         breaks="an empty span that has been passed stays open and is put into the groups after it",
         edits=[("algorithms/GroupBySpan.java", "new Point(6, span.stop(), layer, n)", "new Point(2, span.stop(), layer, n)"),
                ("algorithms/GroupBySpan.java", "                    case -1:\n                    case 6:", "                    case -1:\n                    case 2:\n                    case 6:")],
         demo=java('''
        Document doc = new Document();
        Text txt = doc.add(new Text("main", "abcdefghij"));
        Layer g = doc.add(Layer.create("g").addField("text", txt.spanType()).build());
        Layer l = doc.add(Layer.create("l").addField("text", txt.spanType()).build());
        g.create().put("text", txt.span(5, 8)).insert();
        l.create().put("text", txt.span(2, 2)).insert();
        check(GroupBySpan.builder(g).group(l).includeEmptyGroups(true).solve().get(0).empty(), "an empty span before the group");
''')),
    dict(id="C30-skip-block-end", prop="C30",
         needs="documents skipped by number up to exactly the end of a block, then further reading",
         breaks="after skipping a whole block's documents the next block is dropped too",
         edits=[("io/DocumentStreamReader.java", """        while(k < n) {
            try {
                block.skipValue();
                k++;

                if(!block.hasNext()) {
""", """        while(k < n) {
            try {
                block.skipValue();
                k++;

                if(!block.hasNext()) {
                    if(k == n && k > 1) readNextBlock();
""")],
         demo=java('''
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        DocumentStreamWriter w = new DocumentStreamWriter(out, 2, DocumentStreamWriter.Codec.NONE);
        for (int i = 0; i < 6; i++)
            w.write(new byte[]{'D', 'M', '_', '1', (byte) i});
        w.close();
        DocumentStreamReader r = new DocumentStreamReader(new ByteArrayInputStream(out.toByteArray()));
        check(r.skip(2) == 2, "skipped");
        check(r.nextRaw()[4] == 2, "next document");
''')),
    dict(id="C30-mark-value", prop="C30",
         needs="a split point after the first boundary value of a stream, and another boundary after it",
         breaks="split points do not count the boundary values before them, so the values lead back to another position",
         edits=[("io/BoundaryWriter.java", "        lastsplit = written;", "        lastsplit = written - 4*seg;")],
         demo=java('''
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        BoundaryWriter w = new BoundaryWriter(out, 12);
        w.write(data(5000));
        w.split();
        w.write(data(5000));
        w.close();
        byte[] b = out.toByteArray();
        int v = new DataInputStream(new ByteArrayInputStream(b, 8192, 4)).readInt();
        check(8192 + v == 5005, "where the value leads to");
''')),
    dict(id="C30-short-read", prop="C30",
         needs="a stream that returns fewer bytes than asked for, and a read across a boundary",
         breaks="bytes read are counted as those asked for, so later boundaries are looked for at wrong positions",
         edits=[("io/BoundaryReader.java", "                this.read += read;", "                this.read += maxread;")],
         demo=java('''
        byte[] d = data(30000);
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        BoundaryWriter w = new BoundaryWriter(out, 12);
        w.write(d);
        w.close();
        BoundaryReader r = new BoundaryReader(new ByteArrayInputStream(out.toByteArray()) {
            @Override
            public synchronized int read(byte[] b, int off, int len) {
                return super.read(b, off, Math.min(len, 1000));
            }
        });
        byte[] got = new byte[30000];
        int n = r.read(got, 0, 30000);
        check(n == 30000 && Arrays.equals(got, d), "the data");
''')),
    dict(id="C30-buffer-exact", prop="C30",
         needs="compressed data whose size is a multiple of the buffer size, or longer than it",
         breaks="a write that fills the last buffer exactly loses the bytes after it when single bytes follow",
         edits=[("io/ByteOutputBuffer.java", "            if(pos == current.length && left > 0) {", "            if(pos == current.length && left > current.length) {"),
                ("io/ByteOutputBuffer.java", "            int maxwrite = Math.min(current.length-pos, left);", "            if(pos == current.length) pos = 0;\n            int maxwrite = Math.min(current.length-pos, left);")],
         demo=java('''
        byte[] d = data(3000);
        ByteOutputBuffer b = new ByteOutputBuffer(1024);
        b.write(d, 0, 3000);
        byte[] got = new byte[0];
        try {
            got = b.toByteArray();
        } catch (RuntimeException e) {
        }
        check(Arrays.equals(got, d), "the data");
''')),
    dict(id="C30-flush-count", prop="C30",
         needs="a flush in the middle of a block and then at least one more block",
         breaks="after a flush the count of documents in the block is not started anew: blocks after it are too small, and a document can be lost",
         edits=[("io/DocumentStreamWriter.java", """            currentblockCount = 0;
            currentblock.clear();""", """            currentblockCount = currentblockCount == numDocsPerBlock ? 0 : -1;
            currentblock.clear();""")],
         demo=java('''
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        DocumentStreamWriter w = new DocumentStreamWriter(out, 3, DocumentStreamWriter.Codec.NONE);
        for (int i = 0; i < 2; i++) {
            w.write(new byte[]{'D', 'M', '_', '1', (byte) i});
            w.flush();
        }
        w.close();
        DocumentStreamReader r = new DocumentStreamReader(new ByteArrayInputStream(out.toByteArray()));
        check(r.count() == 2, "documents in the file");
''')),
    dict(id="C30-zip-chunk", prop="C30",
         needs="a block whose compressed form is longer than one chunk of 1024 bytes",
         breaks="decompression stops after a chunk that is not full of output",
         edits=[("io/DeflateCodec.java", "            } while(!inflater.finished());", "            } while(!inflater.finished() && outputBuffer.length() < 4*data.length);")],
         demo=java('''
        byte[] d = new byte[9000];
        check(Arrays.equals(DeflateCodec.decompress(DeflateCodec.compress(d)), d), "the data");
''')),
    dict(id="C31-sort-holes", prop="C31",
         needs="a node removed from a layer, and then the layer sorted",
         breaks="sorting a layer with removed nodes only sorts the nodes up to its size, holes included",
         edits=[("Layer.java", """        compact();
        storage.subList(0, size)""", """        if(size == storage.size()) compact();
        storage.subList(0, size)""")],
         demo=java('''
        Document doc = new Document();
        Layer tok = doc.add(Layer.create("token").addField("v", DataTypes.INT_32).build());
        Node[] t = new Node[4];
        for (int i = 0; i < 4; i++)
            t[i] = tok.create().put("v", 10-i).insert();
        tok.remove(t[1]);
        try {
            tok.sort((x, y) -> Integer.compare(x.get("v").intValue(), y.get("v").intValue()));
        } catch (NullPointerException e) {
            check(false, "sort of a layer with removed nodes");
        }
        check(tok.first().get() == t[3] && tok.last().get() == t[0], "sorted");
''')),
    dict(id="C31-removeall-result", prop="C31",
         needs="removeAll with a node of the layer followed by one which is in no layer",
         breaks="removeAll tells about the last node only",
         edits=[("Layer.java", "            ops |= this.remove(o);", "            ops = this.remove(o);")],
         demo=java('''
        Document doc = new Document();
        Layer tok = doc.add(Layer.create("token").build());
        Node x = tok.create().insert(), y = tok.create().insert();
        tok.remove(y);
        check(tok.removeAll(Arrays.asList(x, y)), "changed");
        check(tok.isEmpty(), "empty");
''')),
    dict(id="C31-foreach-last", prop="C31",
         needs="NodeSpan.forEach over a span whose last slot is the last of the layer, after a removal",
         breaks="forEach over a node span counts nodes instead of slots: it leaves out the end after removals",
         edits=[("Layer.java", """        IntStream.range(left.id, right.id+1).mapToObj(this.storage::get).filter(Objects::nonNull).forEach(consumer);""",
                 """        IntStream.range(left.id, Math.min(right.id, size)+1).filter(i -> i < storage.size()).mapToObj(this.storage::get).filter(Objects::nonNull).forEach(consumer);""")],
         demo=java('''
        Document doc = new Document();
        Layer tok = doc.add(Layer.create("token").build());
        Node[] t = new Node[6];
        for (int i = 0; i < 6; i++)
            t[i] = tok.create().insert();
        tok.remove(t[1]);
        tok.remove(t[2]);
        int[] n = {0};
        new NodeSpan(t[0], t[5]).forEach(x -> n[0]++);
        check(n[0] == 4, "nodes of the span");
''')),
    dict(id="C32-nodespan-absolute", prop="C32",
         needs="a document with a node span that starts after the first node, read by the other implementation",
         breaks="the Java codec writes and reads node spans as two positions instead of position and distance: consistent with itself, not with Python",
         edits=[("MsgpackCodec.java", "packer.packInt(value.right.id-value.left.id);", "packer.packInt(value.right.id);"),
                ("MsgpackCodec.java", "int right = unpacker.unpackInt()+left;", "int right = unpacker.unpackInt();")],
         demo=java('''
        Document doc = new Document();
        Layer tok = doc.add(Layer.create("token").build());
        Node[] t = new Node[4];
        for (int i = 0; i < 4; i++)
            t[i] = tok.create().insert();
        Layer l = doc.add(Layer.create("chunk").addField("span", DataTypes.nodespan("token")).build());
        l.create().put("span", new NodeSpan(t[1], t[2])).insert();
        byte[] raw = MsgpackCodec.encode(doc).toByteArray();
        boolean found = false;
        for (int i = 0; i + 2 < raw.length; i++)
            found |= (raw[i] & 0xff) == 0x92 && raw[i + 1] == 1 && raw[i + 2] == 1;
        check(found, "position and distance");
''')),
    dict(id="C32-offset-bytes", prop="C32",
         needs="a text with characters outside ASCII before the end of a span, decoded",
         breaks="offsets of a decoded text are counted in bytes of UTF-8",
         edits=[("MsgpackCodec.java", "                offset = sb.length();", "                offset += part.getBytes(StandardCharsets.UTF_8).length;")],
         demo=java('''
        Document doc = new Document();
        Text txt = doc.add(new Text("main", "sm\\u00f6rg\\u00e5s"));
        Layer l = doc.add(Layer.create("token").addField("text", txt.spanType()).build());
        Node n = l.create().put("text", txt.span(3, 5)).insert();
        Document d = MsgpackCodec.decode(MsgpackCodec.encode(doc).toByteArray());
        Span s = d.layer("token").first().get().get("text").spanValue();
        check(s.start() == 3 && s.stop() == 5, "span of the decoded document");
''')),
    dict(id="C32-long-default", prop="C32",
         needs="a field with a default value of more than 32 bits, read in Java",
         breaks="whole-number arguments of types are cut to 32 bits",
         edits=[("MsgpackCodec.java", """                                    args.put(key, Values.get(ivalue.toLong()));
""", """                                    args.put(key, Values.get((long)ivalue.toInt()));
""")],
         demo=java('''
        Document doc = new Document();
        Layer l = doc.add(Layer.create("token").addField("v", new DataType.Builder(DataTypeName.LONG).addArg("default", 1L << 40).build()).build());
        Document d = MsgpackCodec.decode(MsgpackCodec.encode(doc).toByteArray());
        check(d.layer("token").schema().getFieldType("v").args().get("default").longValue() == 1L << 40, "default");
''')),
]
