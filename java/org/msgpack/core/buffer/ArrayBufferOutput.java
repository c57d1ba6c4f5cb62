package org.msgpack.core.buffer;

public class ArrayBufferOutput {
    public ArrayBufferOutput() {
    }

    public ArrayBufferOutput(int bufferSize) {
    }
}
