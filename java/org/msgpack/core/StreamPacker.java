package org.msgpack.core;

import java.io.ByteArrayOutputStream;
import java.io.IOException;
import java.io.OutputStream;

/** Keeps what is packed until it is flushed. */
class StreamPacker extends MessagePacker {
    private final OutputStream target;

    StreamPacker(OutputStream target) {
        super(new ByteArrayOutputStream());
        this.target = target;
    }

    @Override
    public void flush() throws IOException {
        ByteArrayOutputStream held = (ByteArrayOutputStream) out;
        if (held.size() > 0)
            target.write(held.toByteArray());
        held.reset();
        target.flush();
    }

    @Override
    public void close() throws IOException {
        flush();
        target.close();
    }
}
