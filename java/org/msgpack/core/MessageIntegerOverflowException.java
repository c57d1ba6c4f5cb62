package org.msgpack.core;

public class MessageIntegerOverflowException extends MessageTypeException {
    public MessageIntegerOverflowException() {
    }

    public MessageIntegerOverflowException(String message) {
        super(message);
    }
}
