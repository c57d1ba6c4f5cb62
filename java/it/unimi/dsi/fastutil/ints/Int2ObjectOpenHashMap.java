package it.unimi.dsi.fastutil.ints;

import java.util.*;

/** Stand-in for fastutil: a map from int keys; iteration order is unspecified there, insertion order here. */
public class Int2ObjectOpenHashMap<V> {
    private final ArrayList<int[]> keys = new ArrayList<>();
    private final ArrayList<V> vals = new ArrayList<>();

    public Int2ObjectOpenHashMap() {}
    public Int2ObjectOpenHashMap(int n) {}

    private int at(int k) {
        for (int i = 0; i < keys.size(); i++)
            if (keys.get(i)[0] == k)
                return i;
        return -1;
    }

    public V put(int k, V v) {
        int i = at(k);
        if (i >= 0)
            return vals.set(i, v);
        keys.add(new int[] {k});
        vals.add(v);
        return null;
    }

    public V get(int k) { int i = at(k); return i < 0 ? null : vals.get(i); }
    public V getOrDefault(int k, V d) { int i = at(k); return i < 0 ? d : vals.get(i); }
    public V putIfAbsent(int k, V v) { int i = at(k); if (i >= 0) return vals.get(i); put(k, v); return null; }
    public V computeIfAbsent(int k, java.util.function.IntFunction<? extends V> f) {
        int i = at(k);
        if (i >= 0)
            return vals.get(i);
        V v = f.apply(k);
        if (v != null)
            put(k, v);
        return v;
    }
    public boolean containsKey(int k) { return at(k) >= 0; }

    public V remove(int k) {
        int i = at(k);
        if (i < 0)
            return null;
        keys.remove(i);
        return vals.remove(i);
    }

    public int size() { return keys.size(); }
    public boolean isEmpty() { return keys.isEmpty(); }
    public void clear() { keys.clear(); vals.clear(); }
    public Collection<V> values() { return vals; }

    public IntSet keySet() {
        IntAVLTreeSet s = new IntAVLTreeSet();
        for (int[] k : keys)
            s.add(k[0]);
        return s;
    }
}
