package score;
import vm.Chain;
import vm.Crypto;
import vm.Db;
import vm.Revert;
import vm.Rlp;
import java.math.BigInteger;

public final class Context {
    public static Address getAddress() { return Chain.cur().top().self; }
    public static Address getCaller() { return Chain.cur().top().caller; }
    public static Address getOrigin() { return Chain.cur().top().origin; }
    public static Address getOwner() { return Chain.cur().top().owner; }
    public static BigInteger getValue() { return Chain.cur().top().value; }
    public static long getBlockHeight() { return Chain.cur().height; }
    public static long getBlockTimestamp() { return Chain.cur().height * 1000000; }
    public static BigInteger getBalance(Address a) { return Chain.cur().balance(a); }
    @SuppressWarnings("unchecked")
    public static <T> T call(Class<T> c, BigInteger v, Address a, String m, Object... p) {
        return (T) Chain.ret(Chain.cur().callFrom(v, a, m, p), c);
    }
    public static <T> T call(Class<T> c, Address a, String m, Object... p) { return call(c, BigInteger.ZERO, a, m, p); }
    public static Object call(BigInteger v, Address a, String m, Object... p) { return Chain.cur().callFrom(v, a, m, p); }
    public static Object call(Address a, String m, Object... p) { return call(BigInteger.ZERO, a, m, p); }
    public static void transfer(Address a, BigInteger v) { Chain.cur().callFrom(v, a, null); }
    public static void revert(int code, String m) { throw new Revert(code, m); }
    public static void revert(int code) { throw new Revert(code, ""); }
    public static void revert(String m) { throw new Revert(0, m); }
    public static void revert() { throw new Revert(0, ""); }
    public static void require(boolean c) { if (!c) throw new IllegalArgumentException("require"); }
    public static void require(boolean c, String m) { if (!c) throw new IllegalArgumentException(m); }
    public static void println(String m) { if (System.getenv("VMPRINT") != null) System.err.println(m); }
    public static byte[] hash(String alg, byte[] m) { return Crypto.hash(alg, m); }
    public static byte[] recoverKey(String alg, byte[] m, byte[] sig, boolean comp) { return Crypto.recover(alg, m, sig, comp); }
    public static Address getAddressFromKey(byte[] k) { return Crypto.address(k); }
    public static ByteArrayObjectWriter newByteArrayObjectWriter(String codec) { return new Rlp.Writer(); }
    public static ObjectReader newByteArrayObjectReader(String codec, byte[] b) { return new Rlp.Reader(b); }
    public static <V> VarDB<V> newVarDB(String id, Class<V> c) { return new Db<V>("v" + id, c); }
    public static <V> ArrayDB<V> newArrayDB(String id, Class<V> c) { return new Db<V>("a" + id, c); }
    @SuppressWarnings("unchecked")
    public static <K, V> DictDB<K, V> newDictDB(String id, Class<V> c) { return (DictDB<K, V>) new Db<V>("d" + id, c); }
    @SuppressWarnings("unchecked")
    public static <K, V> BranchDB<K, V> newBranchDB(String id, Class<?> c) { return (BranchDB<K, V>) new Db<Object>("b" + id, c); }
}
