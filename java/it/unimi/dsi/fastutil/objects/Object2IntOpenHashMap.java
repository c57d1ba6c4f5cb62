package it.unimi.dsi.fastutil.objects;

import java.util.*;

/** Stand-in for fastutil: a map from objects to ints. */
public class Object2IntOpenHashMap<K> {
    private final HashMap<K, int[]> m = new HashMap<>();
    private int def = 0;

    public void defaultReturnValue(int v) { def = v; }
    public int put(K k, int v) { int[] o = m.put(k, new int[] {v}); return o == null ? def : o[0]; }
    public int getInt(Object k) { int[] o = m.get(k); return o == null ? def : o[0]; }
    public int getOrDefault(Object k, int d) { int[] o = m.get(k); return o == null ? d : o[0]; }
    public boolean containsKey(Object k) { return m.containsKey(k); }
    public int addTo(K k, int v) { int[] o = m.get(k); int x = o == null ? def : o[0]; m.put(k, new int[] {x + v}); return x; }
    public int removeInt(Object k) { int[] o = m.remove(k); return o == null ? def : o[0]; }
    public int size() { return m.size(); }
    public Set<K> keySet() { return m.keySet(); }
}
