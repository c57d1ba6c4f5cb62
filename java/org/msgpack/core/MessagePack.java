package org.msgpack.core;

import java.io.InputStream;
import java.io.OutputStream;

/** Stand-in for msgpack-core, which is not installed here: the wire format of MessagePack, for the calls that Docria makes. */
public class MessagePack {
    public static MessagePacker newDefaultPacker(OutputStream out) {
        return new StreamPacker(out);
    }

    public static MessageBufferPacker newDefaultBufferPacker() {
        return new MessageBufferPacker();
    }

    public static MessageUnpacker newDefaultUnpacker(byte[] data) {
        return new MessageUnpacker(data, 0, data.length);
    }

    public static MessageUnpacker newDefaultUnpacker(byte[] data, int offset, int length) {
        return new MessageUnpacker(data, offset, length);
    }

    public static MessageUnpacker newDefaultUnpacker(InputStream in) {
        return new MessageUnpacker(in);
    }
}
