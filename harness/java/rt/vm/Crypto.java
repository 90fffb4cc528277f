package vm;
import score.Address;
import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.Arrays;

/** Hashes and secp256k1, which the JDK no longer has. */
public class Crypto {
    private static final long[] RC = new long[24];
    private static final int[] ROT = new int[25], PERM = new int[25];
    static {
        int lfsr = 1;
        for (int r = 0; r < 24; r++) {
            for (int j = 0; j < 7; j++) {
                if ((lfsr & 1) != 0) RC[r] ^= 1L << ((1 << j) - 1);
                lfsr = (lfsr & 0x80) != 0 ? (lfsr << 1 ^ 0x71) & 0xff : lfsr << 1;
            }
        }
        int x = 1, y = 0;
        for (int t = 0; t < 24; t++) {
            ROT[x + 5 * y] = (t + 1) * (t + 2) / 2 % 64;
            int n = (2 * x + 3 * y) % 5;
            x = y; y = n;
        }
    }
    private static void f(long[] a) {
        long[] c = new long[5], b = new long[25];
        for (int r = 0; r < 24; r++) {
            for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
            for (int x = 0; x < 5; x++) {
                long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
                for (int y = 0; y < 25; y += 5) a[x + y] ^= d;
            }
            for (int x = 0; x < 5; x++)
                for (int y = 0; y < 5; y++) b[y + 5 * ((2 * x + 3 * y) % 5)] = Long.rotateLeft(a[x + 5 * y], ROT[x + 5 * y]);
            for (int x = 0; x < 5; x++)
                for (int y = 0; y < 25; y += 5) a[x + y] = b[x + y] ^ (~b[(x + 1) % 5 + y] & b[(x + 2) % 5 + y]);
            a[0] ^= RC[r];
        }
    }
    static byte[] keccak(byte[] m, int pad) {
        int rate = 136;
        byte[] p = Arrays.copyOf(m, (m.length / rate + 1) * rate);
        p[m.length] ^= pad;
        p[p.length - 1] ^= 0x80;
        long[] a = new long[25];
        for (int o = 0; o < p.length; o += rate) {
            for (int i = 0; i < rate; i++) a[i / 8] ^= (p[o + i] & 0xffL) << (8 * (i % 8));
            f(a);
        }
        byte[] r = new byte[32];
        for (int i = 0; i < 32; i++) r[i] = (byte) (a[i / 8] >>> (8 * (i % 8)));
        return r;
    }
    public static byte[] hash(String alg, byte[] m) {
        try {
            switch (alg) {
                case "keccak-256": return keccak(m, 1);
                case "sha3-256": return keccak(m, 6);
                case "sha-256": return MessageDigest.getInstance("SHA-256").digest(m);
            }
        } catch (java.security.NoSuchAlgorithmException e) { throw new IllegalStateException(e); }
        throw new IllegalArgumentException(alg);
    }

    static final BigInteger P = new BigInteger("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16);
    static final BigInteger N = new BigInteger("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16);
    static final BigInteger[] G = {new BigInteger("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16),
            new BigInteger("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16)};
    // jacobian
    private static BigInteger[] dbl(BigInteger[] p) {
        if (p == null || p[1].signum() == 0) return null;
        BigInteger yy = p[1].multiply(p[1]).mod(P), s = p[0].multiply(yy).shiftLeft(2).mod(P);
        BigInteger m = p[0].multiply(p[0]).multiply(BigInteger.valueOf(3)).mod(P);
        BigInteger x = m.multiply(m).subtract(s.shiftLeft(1)).mod(P);
        BigInteger y = m.multiply(s.subtract(x)).subtract(yy.multiply(yy).shiftLeft(3)).mod(P);
        return new BigInteger[]{x, y, p[1].multiply(p[2]).shiftLeft(1).mod(P)};
    }
    private static BigInteger[] add(BigInteger[] p, BigInteger[] q) {
        if (p == null) return q;
        if (q == null) return p;
        BigInteger z1 = p[2].multiply(p[2]).mod(P), z2 = q[2].multiply(q[2]).mod(P);
        BigInteger u1 = p[0].multiply(z2).mod(P), u2 = q[0].multiply(z1).mod(P);
        BigInteger s1 = p[1].multiply(z2).multiply(q[2]).mod(P), s2 = q[1].multiply(z1).multiply(p[2]).mod(P);
        if (u1.equals(u2)) return s1.equals(s2) ? dbl(p) : null;
        BigInteger h = u2.subtract(u1).mod(P), r = s2.subtract(s1).mod(P);
        BigInteger hh = h.multiply(h).mod(P), hhh = hh.multiply(h).mod(P), v = u1.multiply(hh).mod(P);
        BigInteger x = r.multiply(r).subtract(hhh).subtract(v.shiftLeft(1)).mod(P);
        BigInteger y = r.multiply(v.subtract(x)).subtract(s1.multiply(hhh)).mod(P);
        return new BigInteger[]{x, y, h.multiply(p[2]).multiply(q[2]).mod(P)};
    }
    static BigInteger[] mul(BigInteger[] a, BigInteger k) {
        BigInteger[] p = {a[0], a[1], BigInteger.ONE}, r = null;
        for (int i = k.bitLength() - 1; i >= 0; i--) {
            r = dbl(r);
            if (k.testBit(i)) r = add(r, p);
        }
        return r;
    }
    static BigInteger[] affine(BigInteger[] p) {
        if (p == null) throw new IllegalArgumentException("infinity");
        BigInteger zi = p[2].modInverse(P), z2 = zi.multiply(zi).mod(P);
        return new BigInteger[]{p[0].multiply(z2).mod(P), p[1].multiply(z2).multiply(zi).mod(P)};
    }
    static byte[] b32(BigInteger v) {
        byte[] b = v.toByteArray(), r = new byte[32];
        int n = Math.min(32, b.length);
        System.arraycopy(b, b.length - n, r, 32 - n, n);
        return r;
    }
    static byte[] key(BigInteger[] q, boolean comp) {
        byte[] r = new byte[comp ? 33 : 65];
        r[0] = (byte) (comp ? (q[1].testBit(0) ? 3 : 2) : 4);
        System.arraycopy(b32(q[0]), 0, r, 1, 32);
        if (!comp) System.arraycopy(b32(q[1]), 0, r, 33, 32);
        return r;
    }
    public static byte[] publicKey(BigInteger d, boolean comp) { return key(affine(mul(G, d)), comp); }
    /** r, s, recovery id */
    public static byte[] sign(BigInteger d, byte[] hash) {
        BigInteger z = new BigInteger(1, hash);
        for (int c = 0; ; c++) {
            BigInteger k = new BigInteger(1, keccak((d.toString(16) + z.toString(16) + c).getBytes(), 1)).mod(N);
            if (k.signum() == 0) continue;
            BigInteger[] R = affine(mul(G, k));
            BigInteger r = R[0].mod(N), s = k.modInverse(N).multiply(z.add(r.multiply(d))).mod(N);
            if (r.signum() == 0 || s.signum() == 0 || !R[0].equals(r)) continue;
            int v = R[1].testBit(0) ? 1 : 0;
            if (s.compareTo(N.shiftRight(1)) > 0) { s = N.subtract(s); v ^= 1; }
            byte[] o = new byte[65];
            System.arraycopy(b32(r), 0, o, 0, 32);
            System.arraycopy(b32(s), 0, o, 32, 32);
            o[64] = (byte) v;
            return o;
        }
    }
    public static byte[] recover(String alg, byte[] m, byte[] sig, boolean comp) {
        if (!alg.equals("ecdsa-secp256k1")) throw new IllegalArgumentException(alg);
        if (m.length != 32 || sig.length != 65) throw new IllegalArgumentException("length");
        BigInteger r = new BigInteger(1, Arrays.copyOf(sig, 32)), s = new BigInteger(1, Arrays.copyOfRange(sig, 32, 64));
        int v = sig[64];
        if (r.signum() == 0 || s.signum() == 0 || r.compareTo(N) >= 0 || s.compareTo(N) >= 0 || v < 0 || v > 3)
            throw new IllegalArgumentException("signature");
        BigInteger x = v >= 2 ? r.add(N) : r;
        if (x.compareTo(P) >= 0) throw new IllegalArgumentException("signature");
        BigInteger a = x.multiply(x).multiply(x).add(BigInteger.valueOf(7)).mod(P);
        BigInteger y = a.modPow(P.add(BigInteger.ONE).shiftRight(2), P);
        if (!y.multiply(y).mod(P).equals(a)) throw new IllegalArgumentException("signature");
        if (y.testBit(0) != ((v & 1) == 1)) y = P.subtract(y);
        BigInteger ri = r.modInverse(N), z = new BigInteger(1, m);
        BigInteger[] q = add(mul(new BigInteger[]{x, y}, s.multiply(ri).mod(N)), mul(G, N.subtract(z.multiply(ri).mod(N)).mod(N)));
        return key(affine(q), comp);
    }
    public static Address address(byte[] k) {
        byte[] u = k;
        if (k.length == 33) {
            BigInteger x = new BigInteger(1, Arrays.copyOfRange(k, 1, 33));
            BigInteger y = x.multiply(x).multiply(x).add(BigInteger.valueOf(7)).mod(P).modPow(P.add(BigInteger.ONE).shiftRight(2), P);
            if (y.testBit(0) != (k[0] == 3)) y = P.subtract(y);
            u = key(new BigInteger[]{x, y}, false);
        }
        byte[] h = hash("sha3-256", Arrays.copyOfRange(u, 1, 65)), r = new byte[21];
        System.arraycopy(h, 12, r, 1, 20);
        return new Address(r);
    }
    public static byte[] ethAddress(byte[] u) { return Arrays.copyOfRange(hash("keccak-256", Arrays.copyOfRange(u, 1, 65)), 12, 32); }
}
