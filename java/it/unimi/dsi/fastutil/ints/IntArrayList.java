package it.unimi.dsi.fastutil.ints;

import java.util.*;

/** Stand-in for fastutil: a list of ints. */
public class IntArrayList extends AbstractList<Integer> implements IntCollection {
    protected int[] a = new int[8];
    protected int n = 0;

    public IntArrayList() {}
    public IntArrayList(int capacity) {}
    public IntArrayList(IntCollection c) { for (int k : c.toIntArray()) add(k); }

    public boolean add(int k) {
        if (n == a.length)
            a = Arrays.copyOf(a, 2 * n);
        a[n++] = k;
        return true;
    }

    public boolean add(Integer k) { return add(k.intValue()); }
    public boolean contains(int k) { return indexOf(k) >= 0; }
    public int indexOf(int k) {
        for (int i = 0; i < n; i++)
            if (a[i] == k)
                return i;
        return -1;
    }
    public int getInt(int i) { Objects.checkIndex(i, n); return a[i]; }
    public Integer get(int i) { return getInt(i); }
    public int size() { return n; }
    public void clear() { n = 0; }
    public int[] toIntArray() { return Arrays.copyOf(a, n); }

    public IntListIterator iterator() {
        return new IntListIterator() {
            private int i = 0;
            public boolean hasNext() { return i < n; }
            public int nextInt() { if (i >= n) throw new NoSuchElementException(); return a[i++]; }
            public boolean hasPrevious() { return i > 0; }
            public int previousInt() { if (i <= 0) throw new NoSuchElementException(); return a[--i]; }
        };
    }
}
