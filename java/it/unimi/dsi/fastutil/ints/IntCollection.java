package it.unimi.dsi.fastutil.ints;

public interface IntCollection extends java.util.Collection<Integer> {
    boolean add(int k);
    boolean contains(int k);
    IntIterator iterator();
    int[] toIntArray();
}
