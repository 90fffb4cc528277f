package score;
import java.util.Arrays;
public class Address {
    public static final int LENGTH = 21;
    private final byte[] raw;
    public Address(byte[] raw) {
        if (raw.length != LENGTH) throw new IllegalArgumentException();
        this.raw = raw.clone();
    }
    public static Address fromString(String s) {
        if (s.length() != 42 || !(s.startsWith("hx") || s.startsWith("cx"))) throw new IllegalArgumentException();
        byte[] b = new byte[LENGTH];
        b[0] = (byte) (s.startsWith("cx") ? 1 : 0);
        for (int i = 0; i < 20; i++) {
            int hi = Character.digit(s.charAt(2 + 2 * i), 16), lo = Character.digit(s.charAt(3 + 2 * i), 16);
            if (hi < 0 || lo < 0) throw new IllegalArgumentException();
            b[i + 1] = (byte) (hi << 4 | lo);
        }
        return new Address(b);
    }
    public boolean isContract() { return raw[0] == 1; }
    public byte[] toByteArray() { return raw.clone(); }
    @Override public int hashCode() { return Arrays.hashCode(raw); }
    @Override public boolean equals(Object o) { return o instanceof Address && Arrays.equals(raw, ((Address) o).raw); }
    @Override public String toString() {
        StringBuilder sb = new StringBuilder(raw[0] == 1 ? "cx" : "hx");
        for (int i = 1; i < LENGTH; i++) sb.append(String.format("%02x", raw[i]));
        return sb.toString();
    }
}
