package vm;
import score.*;
import java.io.ByteArrayOutputStream;
import java.lang.reflect.Method;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.ArrayDeque;
import java.util.Deque;

/** The codecs RLP and RLPn of the ICON Java VM. */
public class Rlp {
    public static class Writer implements ByteArrayObjectWriter {
        private final Deque<ByteArrayOutputStream> st = new ArrayDeque<>();
        public Writer() { st.push(new ByteArrayOutputStream()); }
        private void raw(byte[] b) { st.peek().writeBytes(b); }
        private static byte[] head(int base, int n) {
            if (n <= 55) return new byte[]{(byte) (base + n)};
            byte[] l = BigInteger.valueOf(n).toByteArray();
            int off = l[0] == 0 ? 1 : 0;
            byte[] r = new byte[l.length - off + 1];
            r[0] = (byte) (base + 55 + l.length - off);
            System.arraycopy(l, off, r, 1, l.length - off);
            return r;
        }
        public void write(byte[] v) {
            if (v == null) throw new NullPointerException();
            if (v.length == 1 && (v[0] & 0xff) < 0x80) { raw(v); return; }
            raw(head(0x80, v.length));
            raw(v);
        }
        public void write(BigInteger v) { write(v.toByteArray()); }
        public void write(boolean v) { write(new byte[]{(byte) (v ? 1 : 0)}); }
        public void write(byte v) { write(BigInteger.valueOf(v)); }
        public void write(short v) { write(BigInteger.valueOf(v)); }
        public void write(char v) { write(BigInteger.valueOf(v)); }
        public void write(int v) { write(BigInteger.valueOf(v)); }
        public void write(long v) { write(BigInteger.valueOf(v)); }
        public void write(float v) { throw new UnsupportedOperationException(); }
        public void write(double v) { throw new UnsupportedOperationException(); }
        public void write(String v) { write(v.getBytes(StandardCharsets.UTF_8)); }
        public void write(Address v) { write(v.toByteArray()); }
        public void write(Object v) {
            if (v == null) throw new NullPointerException();
            if (v instanceof Boolean) write(((Boolean) v).booleanValue());
            else if (v instanceof BigInteger) write((BigInteger) v);
            else if (v instanceof Character) write(((Character) v).charValue());
            else if (v instanceof Number) write(((Number) v).longValue());
            else if (v instanceof String) write((String) v);
            else if (v instanceof byte[]) write((byte[]) v);
            else if (v instanceof Address) write((Address) v);
            else invoke(v.getClass(), "writeObject", new Class[]{ObjectWriter.class, v.getClass()}, this, v);
        }
        public void writeNullable(Object v) { if (v == null) writeNull(); else write(v); }
        public void write(Object... v) { for (Object o : v) write(o); }
        public void writeNullable(Object... v) { for (Object o : v) writeNullable(o); }
        public void writeNull() { raw(new byte[]{(byte) 0xf8, 0}); }
        public void beginList(int n) { st.push(new ByteArrayOutputStream()); }
        public void beginNullableList(int n) { beginList(n); }
        public void beginMap(int n) { beginList(n); }
        public void beginNullableMap(int n) { beginList(n); }
        public void writeListOf(Object... v) { beginList(v.length); write(v); end(); }
        public void writeListOfNullable(Object... v) { beginList(v.length); writeNullable(v); end(); }
        public void end() {
            byte[] b = st.pop().toByteArray();
            raw(head(0xc0, b.length));
            raw(b);
        }
        public byte[] toByteArray() {
            if (st.size() != 1) throw new IllegalStateException();
            return st.peek().toByteArray();
        }
    }

    static Object invoke(Class<?> c, String name, Class<?>[] types, Object... args) {
        try {
            Method m = c.getMethod(name, types);
            m.setAccessible(true);
            return m.invoke(null, args);
        } catch (java.lang.reflect.InvocationTargetException e) {
            if (e.getCause() instanceof RuntimeException) throw (RuntimeException) e.getCause();
            if (e.getCause() instanceof Error) throw (Error) e.getCause();
            throw new IllegalStateException(e.getCause());
        } catch (ReflectiveOperationException e) {
            throw new IllegalArgumentException(e.toString());
        }
    }

    public static class Reader implements ObjectReader {
        private final byte[] b;
        private int p;
        private final Deque<Integer> ends = new ArrayDeque<>();
        public Reader(byte[] b) { this.b = b; ends.push(b.length); }
        private int len, body; // of the item at p
        private boolean list, nul;
        private void peek() {
            if (p >= ends.peek()) throw new IllegalStateException("no item");
            int h = b[p] & 0xff;
            nul = false;
            if (h < 0x80) { list = false; body = p; len = 1; }
            else if (h <= 0xb7) { list = false; body = p + 1; len = h - 0x80; }
            else if (h < 0xc0) { list = false; size(h - 0xb7); }
            else if (h <= 0xf7) { list = true; body = p + 1; len = h - 0xc0; }
            else { list = true; size(h - 0xf7); nul = h == 0xf8 && len == 0; }
            if (len < 0 || (long) body + len > ends.peek()) throw new IllegalStateException("beyond the end");
        }
        private void size(int n) {
            if (p + 1 + n > ends.peek()) throw new IllegalStateException("beyond the end");
            long l = 0;
            for (int i = 0; i < n; i++) {
                l = l << 8 | (b[p + 1 + i] & 0xff);
                if (l > b.length) throw new IllegalStateException("beyond the end");
            }
            len = (int) l;
            body = p + 1 + n;
        }
        public byte[] readByteArray() {
            peek();
            if (list) throw new IllegalStateException("not bytes");
            byte[] r = new byte[len];
            System.arraycopy(b, body, r, 0, len);
            p = body + len;
            return r;
        }
        public BigInteger readBigInteger() {
            byte[] r = readByteArray();
            return r.length == 0 ? BigInteger.ZERO : new BigInteger(r);
        }
        private long num(int bits) {
            BigInteger v = readBigInteger();
            if (v.bitLength() >= bits) throw new IllegalStateException("out of range");
            return v.longValue();
        }
        public boolean readBoolean() { return num(64) != 0; }
        public byte readByte() { return (byte) num(8); }
        public short readShort() { return (short) num(16); }
        public char readChar() { return (char) num(32); }
        public int readInt() { return (int) num(32); }
        public long readLong() { return num(64); }
        public float readFloat() { throw new UnsupportedOperationException(); }
        public double readDouble() { throw new UnsupportedOperationException(); }
        public String readString() { return new String(readByteArray(), StandardCharsets.UTF_8); }
        public Address readAddress() { return new Address(readByteArray()); }
        @SuppressWarnings("unchecked")
        public <T> T read(Class<T> c) {
            Object o;
            if (c == Boolean.class) o = readBoolean();
            else if (c == Byte.class) o = readByte();
            else if (c == Short.class) o = readShort();
            else if (c == Character.class) o = readChar();
            else if (c == Integer.class) o = readInt();
            else if (c == Long.class) o = readLong();
            else if (c == BigInteger.class) o = readBigInteger();
            else if (c == String.class) o = readString();
            else if (c == byte[].class) o = readByteArray();
            else if (c == Address.class) o = readAddress();
            else o = invoke(c, "readObject", new Class[]{ObjectReader.class}, this);
            return (T) o;
        }
        public <T> T readOrDefault(Class<T> c, T d) { return hasNext() ? read(c) : d; }
        private boolean takeNull() {
            peek();
            if (nul) { p = body; return true; }
            return false;
        }
        public <T> T readNullable(Class<T> c) { return takeNull() ? null : read(c); }
        public <T> T readNullableOrDefault(Class<T> c, T d) { return hasNext() ? readNullable(c) : d; }
        public void beginList() {
            peek();
            if (!list || nul) throw new IllegalStateException("not a list");
            p = body;
            ends.push(body + len);
        }
        public boolean beginNullableList() {
            if (takeNull()) return false;
            beginList();
            return true;
        }
        public void beginMap() { beginList(); }
        public boolean beginNullableMap() { return beginNullableList(); }
        public boolean hasNext() { return p < ends.peek(); }
        public void end() {
            if (ends.size() == 1) throw new IllegalStateException();
            p = ends.pop();
        }
        public void skip() { peek(); p = body + len; }
        public void skip(int n) { for (int i = 0; i < n; i++) skip(); }
    }
}
