package scorex.util;
public class HashMap<K, V> extends java.util.HashMap<K, V> {
    public HashMap() {}
    public HashMap(int n) { super(n); }
}
