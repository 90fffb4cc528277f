package score; public interface ArrayDB<V> { void add(V v); void set(int i, V v); void removeLast(); V get(int i); int size(); V pop(); }
