package it.unimi.dsi.fastutil.ints;

public interface IntListIterator extends IntBidirectionalIterator {
}
