package it.unimi.dsi.fastutil.ints;

public interface IntSet extends IntCollection, java.util.Set<Integer> {
    IntIterator iterator();
    boolean remove(int k);
}
