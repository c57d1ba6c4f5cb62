package org.msgpack.value;

public enum ValueType { NIL, BOOLEAN, INTEGER, FLOAT, STRING, BINARY, ARRAY, MAP, EXTENSION }
