package org.msgpack.value;

/** Stand-in for the values of msgpack-core: the part of their interface that Docria uses. */
public class ImmutableValue {
    private final ValueType type;
    private boolean bool;
    private double number;
    private String string;
    private byte[] bytes;
    private byte extType;

    protected ImmutableValue(ValueType type) {
        this.type = type;
    }

    public static ImmutableValue nil() {
        return new ImmutableValue(ValueType.NIL);
    }

    public static ImmutableValue of(boolean v) {
        ImmutableValue r = new ImmutableValue(ValueType.BOOLEAN);
        r.bool = v;
        return r;
    }

    public static ImmutableValue of(double v) {
        ImmutableValue r = new ImmutableValue(ValueType.FLOAT);
        r.number = v;
        return r;
    }

    public static ImmutableValue of(String v) {
        ImmutableValue r = new ImmutableValue(ValueType.STRING);
        r.string = v;
        return r;
    }

    public static ImmutableValue of(byte[] v) {
        ImmutableValue r = new ImmutableValue(ValueType.BINARY);
        r.bytes = v;
        return r;
    }

    public static ImmutableValue ext(byte type, byte[] v) {
        ImmutableValue r = new ImmutableValue(ValueType.EXTENSION);
        r.bytes = v;
        r.extType = type;
        return r;
    }

    private ImmutableValue as(ValueType t) {
        if (type != t)
            throw new IllegalStateException("not a value of type " + t.name());
        return this;
    }

    public ValueType getValueType() {
        return type;
    }

    public ImmutableValue asStringValue() {
        return as(ValueType.STRING);
    }

    public ImmutableValue asBooleanValue() {
        return as(ValueType.BOOLEAN);
    }

    public ImmutableIntegerValue asIntegerValue() {
        return (ImmutableIntegerValue) as(ValueType.INTEGER);
    }

    public ImmutableValue asFloatValue() {
        return as(ValueType.FLOAT);
    }

    public ImmutableValue asBinaryValue() {
        return as(ValueType.BINARY);
    }

    public ImmutableValue asExtensionValue() {
        return as(ValueType.EXTENSION);
    }

    public boolean getBoolean() {
        return bool;
    }

    public double toDouble() {
        return number;
    }

    public float toFloat() {
        return (float) number;
    }

    public byte[] asByteArray() {
        return bytes.clone();
    }

    public byte getType() {
        return extType;
    }

    public byte[] getData() {
        return bytes;
    }

    @Override
    public String toString() {
        return string;
    }
}
