package it.unimi.dsi.fastutil.ints;

public interface IntIterator extends java.util.Iterator<Integer> {
    int nextInt();
    default Integer next() { return nextInt(); }
}
