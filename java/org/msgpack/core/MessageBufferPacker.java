package org.msgpack.core;

import org.msgpack.core.buffer.MessageBuffer;

import java.io.ByteArrayOutputStream;

public class MessageBufferPacker extends MessagePacker {
    MessageBufferPacker() {
        super(new ByteArrayOutputStream());
    }

    public byte[] toByteArray() {
        return ((ByteArrayOutputStream) out).toByteArray();
    }

    public MessageBuffer toMessageBuffer() {
        return new MessageBuffer(toByteArray());
    }

    public void clear() {
        ((ByteArrayOutputStream) out).reset();
        total = 0;
    }
}
