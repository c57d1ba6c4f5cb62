package org.msgpack.core.buffer;

public class MessageBuffer {
    private final byte[] data;

    public MessageBuffer(byte[] data) {
        this.data = data;
    }

    public byte[] toByteArray() {
        return data.clone();
    }

    public int size() {
        return data.length;
    }
}
