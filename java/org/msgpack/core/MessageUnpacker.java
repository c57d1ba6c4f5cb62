package org.msgpack.core;

import org.msgpack.core.buffer.MessageBuffer;
import org.msgpack.value.ImmutableIntegerValue;
import org.msgpack.value.ImmutableValue;

import java.io.IOException;
import java.io.InputStream;
import java.nio.charset.StandardCharsets;

public class MessageUnpacker {
    private final byte[] data;
    private int pos;
    private final int end;
    private final InputStream in;
    private int peeked = -1;
    private long total = 0;
    /** run before the end of some data in memory is looked for: stands for what other threads do meanwhile */
    public static Runnable meanwhile = null;

    MessageUnpacker(byte[] data, int offset, int length) {
        if (offset < 0 || length < 0 || offset + length > data.length)
            throw new IllegalArgumentException("outside the array");
        this.data = data;
        this.pos = offset;
        this.end = offset + length;
        this.in = null;
    }

    MessageUnpacker(InputStream in) {
        this.data = null;
        this.end = 0;
        this.in = in;
    }

    private int peek() throws IOException {
        if (peeked >= 0)
            return peeked;
        if (in == null)
            return pos < end ? data[pos] & 0xff : -1;
        peeked = in.read();
        return peeked;
    }

    private int next() throws IOException {
        int b = peek();
        if (b < 0)
            throw new MessageInsufficientBufferException();
        total += 1;
        peeked = -1;
        if (in == null)
            pos += 1;
        return b;
    }

    public boolean hasNext() throws IOException {
        if (in == null && meanwhile != null) {
            Runnable r = meanwhile;
            meanwhile = null;
            r.run();
        }
        return peek() >= 0;
    }

    private long number(int n, boolean signed) throws IOException {
        long v = 0;
        for (int i = 0; i < n; i++) {
            int b = next();
            v = i == 0 && signed ? (byte) b : (v << 8) | b;
        }
        return v;
    }

    public byte[] readPayload(int n) throws IOException {
        if (n < 0)
            throw new NegativeArraySizeException();
        byte[] r = new byte[n];
        readPayload(r);
        return r;
    }

    public void readPayload(byte[] r) throws IOException {
        int n = r.length;
        int at = 0;
        if (in == null) {
            if (end - pos < n)
                throw new MessageInsufficientBufferException();
            System.arraycopy(data, pos, r, 0, n);
            pos += n;
        } else {
            if (n > 0 && peeked >= 0) {
                r[0] = (byte) peeked;
                peeked = -1;
                at = 1;
            }
            while (at < n) {
                int k = in.read(r, at, n - at);
                if (k < 0)
                    throw new MessageInsufficientBufferException();
                at += k;
            }
        }
        total += n;
    }

    public MessageBuffer readPayloadAsReference(int n) throws IOException {
        return new MessageBuffer(readPayload(n));
    }

    public long getTotalReadBytes() {
        return total;
    }

    private RuntimeException wrong(String what, int b) {
        return new MessageTypeException("Expected " + what + ", but got " + b);
    }

    public boolean tryUnpackNil() throws IOException {
        int b = peek();
        if (b < 0)
            throw new MessageInsufficientBufferException();
        if (b != 0xc0)
            return false;
        next();
        return true;
    }

    public void unpackNil() throws IOException {
        int b = next();
        if (b != 0xc0)
            throw wrong("Nil", b);
    }

    public boolean unpackBoolean() throws IOException {
        int b = next();
        if (b != 0xc2 && b != 0xc3)
            throw wrong("boolean", b);
        return b == 0xc3;
    }

    public long unpackLong() throws IOException {
        int b = next();
        if (b < 0x80)
            return b;
        if (b >= 0xe0)
            return (byte) b;
        if (b == 0xcf) {
            long v = number(8, false);
            if (v < 0)
                throw new MessageIntegerOverflowException();
            return v;
        }
        if (b >= 0xcc && b <= 0xce)
            return number(1 << (b - 0xcc), false);
        if (b >= 0xd0 && b <= 0xd3)
            return number(1 << (b - 0xd0), true);
        throw wrong("Integer", b);
    }

    public int unpackInt() throws IOException {
        long v = unpackLong();
        if (v < Integer.MIN_VALUE || v > Integer.MAX_VALUE)
            throw new MessageIntegerOverflowException();
        return (int) v;
    }

    public double unpackDouble() throws IOException {
        int b = next();
        if (b == 0xcb)
            return Double.longBitsToDouble(number(8, true));
        if (b == 0xca)
            return Float.intBitsToFloat((int) number(4, true));
        throw wrong("Float", b);
    }

    private int size(long v) {
        if (v > Integer.MAX_VALUE)
            throw new MessageSizeException();
        return (int) v;
    }

    public String unpackString() throws IOException {
        int b = next();
        int n;
        if ((b & 0xe0) == 0xa0)
            n = b & 0x1f;
        else if (b >= 0xd9 && b <= 0xdb)
            n = size(number(1 << (b - 0xd9), false));
        else
            throw wrong("String", b);
        return new String(readPayload(n), StandardCharsets.UTF_8);
    }

    public int unpackArrayHeader() throws IOException {
        int b = next();
        if ((b & 0xf0) == 0x90)
            return b & 0xf;
        if (b == 0xdc || b == 0xdd)
            return size(number(b == 0xdc ? 2 : 4, false));
        throw wrong("Array", b);
    }

    public int unpackMapHeader() throws IOException {
        int b = next();
        if ((b & 0xf0) == 0x80)
            return b & 0xf;
        if (b == 0xde || b == 0xdf)
            return size(number(b == 0xde ? 2 : 4, false));
        throw wrong("Map", b);
    }

    public int unpackBinaryHeader() throws IOException {
        int b = next();
        if (b >= 0xc4 && b <= 0xc6)
            return size(number(1 << (b - 0xc4), false));
        if ((b & 0xe0) == 0xa0)
            return b & 0x1f;
        if (b >= 0xd9 && b <= 0xdb)
            return size(number(1 << (b - 0xd9), false));
        throw wrong("Binary", b);
    }

    public ImmutableValue unpackValue() throws IOException {
        int b = peek();
        if (b < 0)
            throw new MessageInsufficientBufferException();
        if (b == 0xc0) {
            next();
            return ImmutableValue.nil();
        }
        if (b == 0xc2 || b == 0xc3)
            return ImmutableValue.of(unpackBoolean());
        if (b < 0x80 || b >= 0xe0 || b >= 0xcc && b <= 0xd3)
            return new ImmutableIntegerValue(unpackLong());
        if (b == 0xca || b == 0xcb)
            return ImmutableValue.of(unpackDouble());
        if ((b & 0xe0) == 0xa0 || b >= 0xd9 && b <= 0xdb)
            return ImmutableValue.of(unpackString());
        if (b >= 0xc4 && b <= 0xc6) {
            int n = unpackBinaryHeader();
            return ImmutableValue.of(readPayload(n));
        }
        if (b >= 0xd4 && b <= 0xd8) {
            next();
            byte t = (byte) next();
            return ImmutableValue.ext(t, readPayload(1 << (b - 0xd4)));
        }
        if (b >= 0xc7 && b <= 0xc9) {
            next();
            int n = size(number(1 << (b - 0xc7), false));
            byte t = (byte) next();
            return ImmutableValue.ext(t, readPayload(n));
        }
        throw new UnsupportedOperationException("arrays and maps as values");
    }

    public void skipValue() throws IOException {
        int b = peek();
        int n = 0;
        if (b >= 0x80 && b < 0x90 || b == 0xde || b == 0xdf)
            n = 2 * unpackMapHeader();
        else if (b >= 0x90 && b < 0xa0 || b == 0xdc || b == 0xdd)
            n = unpackArrayHeader();
        else {
            unpackValue();
            return;
        }
        for (int i = 0; i < n; i++)
            skipValue();
    }

    public void close() throws IOException {
        if (in != null)
            in.close();
    }
}
