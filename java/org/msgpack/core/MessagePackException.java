package org.msgpack.core;

public class MessagePackException extends RuntimeException {
    public MessagePackException() {
    }

    public MessagePackException(String message) {
        super(message);
    }
}
