package it.unimi.dsi.fastutil.ints;

import java.util.*;

/** Stand-in for fastutil: a sorted set of ints. */
public class IntAVLTreeSet extends AbstractSet<Integer> implements IntSet {
    private int[] a = new int[8];
    private int n = 0;

    public IntAVLTreeSet() {}
    public IntAVLTreeSet(IntCollection c) { for (int k : c.toIntArray()) add(k); }
    public IntAVLTreeSet(int[] c) { for (int k : c) add(k); }
    public IntAVLTreeSet(Collection<Integer> c) { for (Integer k : c) add(k.intValue()); }

    public boolean add(int k) {
        int i = 0;
        while (i < n && a[i] < k)
            i++;
        if (i < n && a[i] == k)
            return false;
        if (n == a.length)
            a = Arrays.copyOf(a, 2 * n);
        for (int j = n; j > i; j--)
            a[j] = a[j - 1];
        a[i] = k;
        n++;
        return true;
    }

    public boolean add(Integer k) { return add(k.intValue()); }

    public boolean contains(int k) {
        for (int i = 0; i < n; i++)
            if (a[i] == k)
                return true;
        return false;
    }

    public boolean remove(int k) {
        for (int i = 0; i < n; i++)
            if (a[i] == k) {
                for (int j = i; j < n - 1; j++)
                    a[j] = a[j + 1];
                n--;
                return true;
            }
        return false;
    }

    public int firstInt() { if (n == 0) throw new NoSuchElementException(); return a[0]; }
    public int lastInt() { if (n == 0) throw new NoSuchElementException(); return a[n - 1]; }
    public int size() { return n; }
    public int[] toIntArray() { return Arrays.copyOf(a, n); }

    public IntBidirectionalIterator iterator() {
        return new IntBidirectionalIterator() {
            private int i = 0;
            public boolean hasNext() { return i < n; }
            public int nextInt() { if (i >= n) throw new NoSuchElementException(); return a[i++]; }
            public boolean hasPrevious() { return i > 0; }
            public int previousInt() { if (i <= 0) throw new NoSuchElementException(); return a[--i]; }
        };
    }
}
