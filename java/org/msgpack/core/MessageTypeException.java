package org.msgpack.core;

public class MessageTypeException extends MessagePackException {
    public MessageTypeException() {
    }

    public MessageTypeException(String message) {
        super(message);
    }
}
