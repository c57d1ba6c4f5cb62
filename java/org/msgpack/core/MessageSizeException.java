package org.msgpack.core;

public class MessageSizeException extends MessagePackException {
    public MessageSizeException() {
    }

    public MessageSizeException(String message) {
        super(message);
    }
}
