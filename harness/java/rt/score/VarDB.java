package score; public interface VarDB<V> { void set(V v); V get(); V getOrDefault(V d); }
