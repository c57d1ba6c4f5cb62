package org.msgpack.core;

public class MessageInsufficientBufferException extends MessagePackException {
    public MessageInsufficientBufferException() {
    }

    public MessageInsufficientBufferException(String message) {
        super(message);
    }
}
