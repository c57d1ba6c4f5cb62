package org.msgpack.value;

public class ImmutableIntegerValue extends ImmutableValue {
    private final long value;

    public ImmutableIntegerValue(long value) {
        super(ValueType.INTEGER);
        this.value = value;
    }

    public boolean isInIntRange() {
        return value >= Integer.MIN_VALUE && value <= Integer.MAX_VALUE;
    }

    public int toInt() {
        return (int) value;
    }

    public long toLong() {
        return value;
    }
}
