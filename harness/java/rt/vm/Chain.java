package vm;
import score.Address;
import score.RevertedException;
import score.UserRevertException;
import score.UserRevertedException;
import score.annotation.External;
import score.annotation.Payable;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.math.BigInteger;
import java.util.*;

/** One simulated ICON chain: contracts, their storage, balances and event logs. */
public class Chain {
    static final ThreadLocal<Chain> CUR = new ThreadLocal<>();
    public static Chain cur() { return CUR.get(); }

    public static class Frame {
        public Address self, caller, origin, owner;
        public BigInteger value;
    }
    public static class Event {
        public final Address from; public final String name; public final Object[] args;
        Event(Address from, String name, Object[] args) { this.from = from; this.name = name; this.args = args; }
    }
    public final String name;
    Map<String, byte[]> store = new HashMap<>();
    Map<Address, BigInteger> balances = new HashMap<>();
    List<Event> events = new ArrayList<>();
    final Map<Address, Object> contracts = new HashMap<>();
    final Map<Address, Address> owners = new HashMap<>();
    final Deque<Frame> frames = new ArrayDeque<>();
    public long height = 1;

    public Chain(String name) { this.name = name; }
    public Frame top() { return frames.peek(); }
    public BigInteger balance(Address a) { return balances.getOrDefault(a, BigInteger.ZERO); }
    public void mint(Address a, BigInteger v) { balances.put(a, balance(a).add(v)); }
    public List<Event> takeEvents() { List<Event> r = events; events = new ArrayList<>(); return r; }
    public static void emit(String name, Object... args) {
        Chain c = cur();
        c.events.add(new Event(c.top().self, name, args));
    }

    public interface Maker { Object make(); }
    /** deploy runs the constructor as the contract. */
    public void deploy(Address a, Address owner, Maker m) {
        owners.put(a, owner);
        CUR.set(this);
        push(a, owner, BigInteger.ZERO);
        try { contracts.put(a, m.make()); } finally { frames.pop(); }
    }
    private void push(Address self, Address caller, BigInteger value) {
        Frame f = new Frame();
        f.self = self; f.caller = caller; f.value = value; f.owner = owners.get(self);
        f.origin = frames.isEmpty() ? caller : frames.peekLast().origin;
        frames.push(f);
    }
    private void move(Address from, Address to, BigInteger v) {
        if (v.signum() < 0 || balance(from).compareTo(v) < 0) throw new RevertedException("OutOfBalance");
        balances.put(from, balance(from).subtract(v));
        balances.put(to, balance(to).add(v));
    }

    /** Result of a transaction: code -1 success, -2 failure other than a revert, else the revert code. */
    public static class Result { public int code = -1; public Object value; public String msg = ""; }
    public Result transact(Address from, BigInteger value, Address to, String method, Object... args) {
        CUR.set(this);
        frames.clear();
        Result r = new Result();
        try {
            r.value = call(from, value, to, method, args);
        } catch (UserRevertedException e) {
            r.code = e.getCode(); r.msg = String.valueOf(e.getMessage());
        } catch (RevertedException e) {
            r.code = -2; r.msg = String.valueOf(e.getMessage());
        }
        return r;
    }

    Object call(Address from, BigInteger value, Address to, String method, Object... args) {
        Map<String, byte[]> s = new HashMap<>(store);
        Map<Address, BigInteger> b = new HashMap<>(balances);
        int n = events.size();
        int depth = frames.size();
        boolean ok = false;
        try {
            move(from, to, value);
            Object c = contracts.get(to);
            if (c == null) {
                if (method != null) throw new RevertedException("ContractNotFound");
                ok = true;
                return null;
            }
            push(to, from, value);
            Object r = invoke(c, method == null ? "fallback" : method, value, args);
            ok = true;
            return r;
        } finally {
            while (frames.size() > depth) frames.pop();
            if (!ok) {
                store = s; balances = b;
                while (events.size() > n) events.remove(events.size() - 1);
            }
        }
    }

    private static <A extends java.lang.annotation.Annotation> boolean has(Class<?> c, Method m, Class<A> a) {
        for (Class<?> k = c; k != null && k != Object.class; k = k.getSuperclass()) {
            try {
                if (k.getDeclaredMethod(m.getName(), m.getParameterTypes()).getAnnotation(a) != null) return true;
            } catch (NoSuchMethodException e) { /* further up */ }
        }
        return false;
    }

    private Object invoke(Object c, String name, BigInteger value, Object[] args) {
        Method found = null;
        for (Method m : c.getClass().getMethods()) {
            if (m.getName().equals(name) && !m.isBridge() && m.getDeclaringClass() != Object.class
                    && (has(c.getClass(), m, External.class) || name.equals("fallback"))) {
                if (found == null || m.getParameterCount() == args.length) found = m;
            }
        }
        if (found == null) throw new RevertedException("MethodNotFound " + name);
        if (value.signum() > 0 && !has(c.getClass(), found, Payable.class)) throw new RevertedException("MethodNotPayable");
        Class<?>[] t = found.getParameterTypes();
        if (args.length > t.length) throw new RevertedException("InvalidParameter");
        Object[] a = new Object[t.length];
        for (int i = 0; i < t.length; i++) a[i] = i < args.length ? convert(args[i], t[i]) : convert(null, t[i]);
        found.setAccessible(true);
        try {
            return found.invoke(c, a);
        } catch (InvocationTargetException e) {
            Throwable x = e.getCause();
            if (x instanceof UserRevertException) throw new UserRevertedException(((UserRevertException) x).getCode(), x.getMessage());
            if (x instanceof Revert) throw new UserRevertedException(((Revert) x).code, x.getMessage());
            if (x instanceof VirtualMachineError && !(x instanceof StackOverflowError)) throw (Error) x;
            if (System.getenv("VMTRACE") != null) x.printStackTrace();
            throw new RevertedException(x.toString());
        } catch (IllegalAccessException | IllegalArgumentException e) {
            throw new RevertedException("InvalidParameter " + e);
        }
    }

    static Object convert(Object v, Class<?> t) {
        if (t == int.class || t == Integer.class) return v == null ? (t == int.class ? (Object) 0 : null) : ((Number) v).intValue();
        if (t == long.class || t == Long.class) return v == null ? (t == long.class ? (Object) 0L : null) : ((Number) v).longValue();
        if (t == boolean.class || t == Boolean.class) return v == null ? (t == boolean.class ? (Object) false : null) : v;
        if (t == BigInteger.class && v instanceof Number && !(v instanceof BigInteger)) return BigInteger.valueOf(((Number) v).longValue());
        return v;
    }

    public Object callFrom(BigInteger value, Address to, String method, Object... args) {
        return call(top().self, value == null ? BigInteger.ZERO : value, to, method, args);
    }
    public static Object ret(Object v, Class<?> c) { return v == null ? null : convert(v, c); }
}
