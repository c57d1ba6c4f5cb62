package it.unimi.dsi.fastutil.ints;

public interface IntBidirectionalIterator extends IntIterator {
    int previousInt();
    boolean hasPrevious();
}
