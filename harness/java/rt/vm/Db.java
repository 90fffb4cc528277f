package vm;
import score.*;
import java.math.BigInteger;

/** VarDB, ArrayDB, DictDB and BranchDB over the storage of the running contract. */
public class Db<V> implements VarDB<V>, ArrayDB<V>, DictDB<Object, V>, BranchDB<Object, Object> {
    private final String id;
    private final Class<?> c;
    public Db(String id, Class<?> c) { this.id = id; this.c = c; }
    private String key(Object k) { return Chain.cur().top().self + "/" + id + "/" + k; }
    private static String name(Object k) {
        if (k instanceof byte[]) return "b" + new BigInteger(1, (byte[]) k).toString(16) + ":" + ((byte[]) k).length;
        if (k instanceof Number) return "i" + new BigInteger(k.toString());
        return k.getClass().getSimpleName().charAt(0) + k.toString().length() + ":" + k;
    }
    private void put(String k, Object v) {
        if (v == null) { Chain.cur().store.remove(k); return; }
        Rlp.Writer w = new Rlp.Writer();
        w.write(v);
        Chain.cur().store.put(k, w.toByteArray());
    }
    private Object fetch(String k, Class<?> c) {
        byte[] b = Chain.cur().store.get(k);
        return b == null ? null : new Rlp.Reader(b).read(c);
    }
    // VarDB
    public void set(V v) { put(key("var"), v); }
    @SuppressWarnings("unchecked") public V get() { return (V) fetch(key("var"), c); }
    public V getOrDefault(V d) { V v = get(); return v == null ? d : v; }
    // ArrayDB
    public int size() { Integer n = (Integer) fetch(key("size"), Integer.class); return n == null ? 0 : n; }
    public void add(V v) { int n = size(); put(key("@" + n), v); put(key("size"), n + 1); }
    private void check(int i) { if (i < 0 || i >= size()) throw new IllegalArgumentException(); }
    public void set(int i, V v) { check(i); put(key("@" + i), v); }
    @SuppressWarnings("unchecked") public V get(int i) { check(i); return (V) fetch(key("@" + i), c); }
    public void removeLast() { pop(); }
    public V pop() {
        int n = size();
        if (n == 0) throw new IllegalStateException();
        V v = get(n - 1);
        put(key("@" + (n - 1)), null);
        put(key("size"), n - 1);
        return v;
    }
    // DictDB
    public void set(Object k, V v) { put(key("#" + name(k)), v); }
    @SuppressWarnings("unchecked") public V get(Object k) { return (V) fetch(key("#" + name(k)), c); }
    public V getOrDefault(Object k, V d) { V v = get(k); return v == null ? d : v; }
    // BranchDB
    public Object at(Object k) { return new Db<V>(id + "." + name(k), c); }
}
