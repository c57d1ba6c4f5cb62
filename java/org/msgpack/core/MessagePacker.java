package org.msgpack.core;

import java.io.IOException;
import java.io.OutputStream;
import java.nio.charset.StandardCharsets;

public class MessagePacker {
    protected final OutputStream out;
    protected long total = 0;

    MessagePacker(OutputStream out) {
        this.out = out;
    }

    private void bytes(int head, long v, int n) throws IOException {
        byte[] b = new byte[n + 1];
        b[0] = (byte) head;
        for (int i = n; i > 0; i--) {
            b[i] = (byte) v;
            v >>= 8;
        }
        out.write(b, 0, n + 1);
        total += n + 1;
    }

    public MessagePacker packNil() throws IOException {
        bytes(0xc0, 0, 0);
        return this;
    }

    public MessagePacker packBoolean(boolean v) throws IOException {
        bytes(v ? 0xc3 : 0xc2, 0, 0);
        return this;
    }

    public MessagePacker packInt(int v) throws IOException {
        return packLong(v);
    }

    public MessagePacker packLong(long v) throws IOException {
        if (v >= 0) {
            if (v < 128)
                bytes((int) v, 0, 0);
            else if (v < 256)
                bytes(0xcc, v, 1);
            else if (v < 65536)
                bytes(0xcd, v, 2);
            else if (v < (1L << 32))
                bytes(0xce, v, 4);
            else
                bytes(0xcf, v, 8);
        } else if (v >= -32)
            bytes((int) v, 0, 0);
        else if (v >= -128)
            bytes(0xd0, v, 1);
        else if (v >= -32768)
            bytes(0xd1, v, 2);
        else if (v >= -(1L << 31))
            bytes(0xd2, v, 4);
        else
            bytes(0xd3, v, 8);
        return this;
    }

    public MessagePacker packDouble(double v) throws IOException {
        bytes(0xcb, Double.doubleToRawLongBits(v), 8);
        return this;
    }

    public MessagePacker packString(String s) throws IOException {
        byte[] b = s.getBytes(StandardCharsets.UTF_8);
        int n = b.length;
        if (n < 32)
            bytes(0xa0 | n, 0, 0);
        else if (n < 256)
            bytes(0xd9, n, 1);
        else if (n < 65536)
            bytes(0xda, n, 2);
        else
            bytes(0xdb, n, 4);
        return writePayload(b);
    }

    public MessagePacker packArrayHeader(int n) throws IOException {
        if (n < 0)
            throw new IllegalArgumentException("array size must be >= 0");
        if (n < 16)
            bytes(0x90 | n, 0, 0);
        else if (n < 65536)
            bytes(0xdc, n, 2);
        else
            bytes(0xdd, n, 4);
        return this;
    }

    public MessagePacker packMapHeader(int n) throws IOException {
        if (n < 0)
            throw new IllegalArgumentException("map size must be >= 0");
        if (n < 16)
            bytes(0x80 | n, 0, 0);
        else if (n < 65536)
            bytes(0xde, n, 2);
        else
            bytes(0xdf, n, 4);
        return this;
    }

    public MessagePacker packBinaryHeader(int n) throws IOException {
        if (n < 256)
            bytes(0xc4, n, 1);
        else if (n < 65536)
            bytes(0xc5, n, 2);
        else
            bytes(0xc6, n, 4);
        return this;
    }

    public MessagePacker packExtensionTypeHeader(byte type, int n) throws IOException {
        if (n == 1 || n == 2 || n == 4 || n == 8 || n == 16) {
            int k = n == 1 ? 0 : n == 2 ? 1 : n == 4 ? 2 : n == 8 ? 3 : 4;
            bytes(0xd4 + k, type, 1);
        } else if (n < 256) {
            bytes(0xc7, n, 1);
            bytes(type, 0, 0);
        } else if (n < 65536) {
            bytes(0xc8, n, 2);
            bytes(type, 0, 0);
        } else {
            bytes(0xc9, n, 4);
            bytes(type, 0, 0);
        }
        return this;
    }

    public MessagePacker writePayload(byte[] b) throws IOException {
        out.write(b, 0, b.length);
        total += b.length;
        return this;
    }

    public MessagePacker addPayload(byte[] b) throws IOException {
        return writePayload(b);
    }

    public long getTotalWrittenBytes() {
        return total;
    }

    public void flush() throws IOException {
        out.flush();
    }

    public void close() throws IOException {
        out.flush();
        out.close();
    }
}
