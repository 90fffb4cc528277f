import foundation.icon.btp.bmv.btpblock.BTPMessageVerifier;
import foundation.icon.btp.lib.BMVStatus;
import score.Address;
import vm.Chain;
import vm.Crypto;
import vm.Driver;
import vm.Json;
import vm.Rlp;
import java.math.BigInteger;
import java.util.*;

/** A chain with BTP blocks, relay messages made from it, and the verifier. */
public class Main {
    static final int NID = 3, TYPE = 1;
    static final String SRC = "btp/0x2.icon";
    static Address addr(String name) {
        byte[] r = new byte[21];
        System.arraycopy(Crypto.hash("sha3-256", name.getBytes()), 0, r, 1, 20);
        r[0] = 1;
        return new Address(r);
    }
    static byte[] h(byte[] b) { return Crypto.hash("keccak-256", b); }
    static byte[] h(byte[] a, byte[] b) {
        byte[] r = Arrays.copyOf(a, a.length + b.length);
        System.arraycopy(b, 0, r, a.length, b.length);
        return h(r);
    }
    static byte[] h(String s) { return h(s.getBytes()); }
    static void put(Rlp.Writer w, Object o) {
        if (o == null) w.writeNull();
        else if (o instanceof List) { w.beginList(0); for (Object x : (List<?>) o) put(w, x); w.end(); }
        else if (o instanceof Integer) w.write((int) o);
        else if (o instanceof Long) w.write((long) o);
        else w.write((byte[]) o);
    }
    static byte[] rlp(Object... o) { Rlp.Writer w = new Rlp.Writer(); put(w, Arrays.asList(o)); return w.toByteArray(); }
    static BigInteger key(int k) { return new BigInteger(1, h("key " + k)).shiftRight(1); }

    static final Map<Integer, byte[]> ETH = new java.util.concurrent.ConcurrentHashMap<>();
    static byte[] eth(int k) { return ETH.computeIfAbsent(k, x -> Crypto.ethAddress(Crypto.publicKey(key(x), false))); }

    static byte[] msg(int b, int i) { return ("message " + b + " " + i).getBytes(); }
    static byte[] root(List<byte[]> leaves) {
        if (leaves.isEmpty()) return null;
        if (leaves.size() == 1) return leaves.get(0);
        int n = Integer.highestOneBit(leaves.size() - 1);
        return h(root(leaves.subList(0, n)), root(leaves.subList(n, leaves.size())));
    }
    static int n(Object o) { return ((Number) o).intValue(); }
    static <T> T get(Object m, String k) { @SuppressWarnings("unchecked") T t = (T) ((Map<?, ?>) m).get(k); return t; }
    static int num(Object m, String k) { return n(get(m, k)); }

    static class Node { int n; byte[] v; Node(int n, byte[] v) { this.n = n; this.v = v; } }

    static class Source {
        final List<?> blocks, sets;
        final long off;
        byte[][] nsHash;
        Source(Object c) {
            blocks = get(c, "blocks"); sets = get(c, "sets"); off = num(c, "off");
            nsHash = new byte[blocks.size() + 1][];
            for (int b = 1; b <= blocks.size(); b++) nsHash[b] = h(section(head(b)));
        }
        Object blk(int b) { return blocks.get(b - 1); }
        int m(int b) { return num(blk(b), "m"); }
        long first(int b) { long r = 0; for (int i = 1; i < b; i++) r += m(i); return r; }
        int setAt(int b) { int r = 0; for (int i = 1; i <= b; i++) if (num(blk(i), "set") != 0) r = num(blk(i), "set"); return r; }
        List<?> keys(int set) { return (List<?>) sets.get(set - 1); }
        byte[] ctx(int set) {
            List<Object> l = new ArrayList<>();
            for (Object k : keys(set)) l.add(eth(n(k)));
            return rlp(l);
        }
        List<byte[]> leaves(int b) {
            List<byte[]> r = new ArrayList<>();
            for (int i = 1; i <= m(b); i++) r.add(h(msg(b, i)));
            return r;
        }
        /** mainHeight round pcHash path nid updateNumber prev count root pc */
        Object[] head(int b) {
            boolean up = num(blk(b), "set") != 0;
            byte[] pc = ctx(setAt(b));
            List<Object> path = new ArrayList<>();
            int i = 0;
            for (Object d : Main.<List<?>>get(blk(b), "path")) path.add(Arrays.asList(n(d), h("section " + b + " " + i++)));
            return new Object[]{10L * b, b % 3, h(pc), path, NID, first(b) * 2 + (up ? 1 : 0), b == 1 ? null : nsHash[b - 1], m(b), root(leaves(b)), up ? pc : null};
        }
        static byte[] section(Object[] x) { return rlp(x[4], x[5], x[6], x[7], x[8]); }
        static byte[] decision(Object[] x) {
            byte[] r = h(section(x));
            for (Object p : (List<?>) x[3]) {
                List<?> q = (List<?>) p;
                r = n(q.get(0)) == 0 ? h((byte[]) q.get(1), r) : h(r, (byte[]) q.get(1));
            }
            return h(rlp(SRC.getBytes(), TYPE, x[0], x[1], h(rlp(x[2], r))));
        }
        byte[] other(int b) { return h(ctx(setAt(b)), "x".getBytes()); }
        void alter(Object[] x, String alt, int b) {
            switch (alt) {
                case "height": x[0] = (long) x[0] + 1; break;
                case "round": x[1] = (int) x[1] + 1; break;
                case "pchash": x[2] = h((byte[]) x[2]); break;
                case "path": { List<Object> p = new ArrayList<>((List<?>) x[3]); if (p.isEmpty() || b % 2 == 0) p.add(Arrays.asList(b % 2, h("more"))); else p.remove(p.size() - 1); x[3] = p; break; }
                case "dir": { List<Object> p = new ArrayList<>((List<?>) x[3]); if (p.isEmpty()) p.add(Arrays.asList(0, h("more"))); else { List<?> q = (List<?>) p.get(0); p.set(0, Arrays.asList(1 - n(q.get(0)), q.get(1))); } x[3] = p; break; }
                case "nid": x[4] = NID + 1; break;
                case "sn+": x[5] = (long) x[5] + 2; break;
                case "sn-": x[5] = (long) x[5] - 2; break;
                case "flag": x[5] = (long) x[5] ^ 1; x[9] = ctx(setAt(b)); break;   // an update to the same validators, or an update denied
                case "prev": x[6] = h("other"); break;
                case "noprev": x[6] = null; break;
                case "count": x[7] = (int) x[7] + 1; break;
                case "root": x[8] = h("root"); break;
                case "pc": x[9] = rlp(List.of(eth(77))); break;
                case "pcnull": x[9] = null; break;
            }
        }
        byte[] update(Object it) {
            int b = num(it, "b");
            String alt = get(it, "alt");
            boolean re = get(it, "re");
            Object[] x = head(b);
            byte[] d = decision(x);
            alter(x, alt, b);
            if (re) d = decision(x);
            List<Object> sigs = new ArrayList<>();
            for (Object s : Main.<List<?>>get(it, "sigs")) {
                String kind = get(s, "kind");
                byte[] z = Crypto.sign(key(num(s, "k")), kind.equals("bad") ? h(d) : d);
                if (kind.equals("short")) z = Arrays.copyOf(z, 64);
                sigs.add(kind.equals("null") ? null : z);
            }
            return rlp(rlp(x), rlp(sigs));
        }
        void nodes(List<byte[]> lv, int lo, int from, int to, List<Node> left, List<Node> right) {
            int hi = lo + lv.size();
            if (hi <= from) { left.add(new Node(lv.size(), root(lv))); return; }
            if (lo >= to) { right.add(new Node(lv.size(), root(lv))); return; }
            if (lo >= from && hi <= to) return;
            int k = Integer.highestOneBit(lv.size() - 1);
            nodes(lv.subList(0, k), lo, from, to, left, right);
            nodes(lv.subList(k, lv.size()), lo + k, from, to, left, right);
        }
        static List<Object> enc(List<Node> l) { List<Object> r = new ArrayList<>(); for (Node x : l) r.add(Arrays.asList(x.n, x.v)); return r; }
        static class Sub { byte[] v, pre; List<Sub> kids = List.of(); }
        Sub sub(int b, int lo, int n) {
            Sub s = new Sub();
            if (n == 1) s.pre = msg(b, lo + 1);
            else {
                int k = Integer.highestOneBit(n - 1);
                s.kids = List.of(sub(b, lo, k), sub(b, lo + k, n - k));
                s.pre = cat(s.kids.get(0).v, s.kids.get(1).v);
            }
            s.v = h(s.pre);
            return s;
        }
        static byte[] cat(byte[] x, byte[] y) { byte[] r = Arrays.copyOf(x, x.length + y.length); System.arraycopy(y, 0, r, x.length, y.length); return r; }
        static List<List<Sub>> cuts(Sub s) {
            List<List<Sub>> r = new ArrayList<>();
            r.add(List.of(s));
            if (!s.kids.isEmpty())
                for (List<Sub> x : cuts(s.kids.get(0))) for (List<Sub> y : cuts(s.kids.get(1))) { List<Sub> z = new ArrayList<>(x); z.addAll(y); r.add(z); }
            return r;
        }
        // an accumulator that believes the counts
        static class Acc { Acc l, r; int n; byte[] v;
            Acc(int n, byte[] v) { this.n = n; this.v = v; }
            Acc add(int k, byte[] x) {
                if (l != null && l.n != r.n) { Acc a = new Acc(n + k, null); a.l = l; a.r = r.add(k, x); return a; }
                Acc a = new Acc(n + k, null); a.l = this; a.r = new Acc(k, x); return a;
            }
            byte[] hash() { return v != null ? v : h(l.hash(), r.hash()); }
        }
        List<Object[]> collapsed(int b, int done) {
            List<Object[]> r = new ArrayList<>();
            int n = m(b);
            if (n < 2 || n > 9) return r;
            byte[] want = root(leaves(b));
            for (List<Sub> cut : cuts(sub(b, 0, n))) {
                int k = cut.size();
                if (k == n) continue;
                for (int z = 0; z < 1 << (n - 1); z++) if (Integer.bitCount(z) == k - 1) {
                    int[] ns = new int[k];
                    int q = 0;
                    for (int i = 0; i < n; i++) { ns[q]++; if (i < n - 1 && (z >> i & 1) == 1) q++; }
                    int at = -1;
                    for (int i = 0, sum = 0; i < k; sum += ns[i++]) if (sum == done) at = i;
                    if (at < 0 || ns[at] != 1 || cut.get(at).kids.isEmpty()) continue;
                    Acc a = null;
                    for (int i = 0; i < k; i++) a = a == null ? new Acc(ns[i], cut.get(i).v) : a.add(ns[i], cut.get(i).v);
                    if (Arrays.equals(a.hash(), want)) r.add(new Object[]{cut, ns, at});
                }
            }
            return r;
        }
        byte[] proof(Object it, Random rnd, int done) {
            int b = num(it, "b"), from = num(it, "from"), to = num(it, "to");
            String alt = get(it, "alt");
            List<Node> left = new ArrayList<>(), right = new ArrayList<>();
            List<byte[]> ms = new ArrayList<>(), lv = leaves(b);
            if (!lv.isEmpty()) nodes(lv, 0, from, Math.max(from, to), left, right);
            for (int i = from + 1; i <= to; i++) ms.add(msg(b, i));
            switch (alt) {
                case "msg": if (ms.isEmpty()) ms.add("forged".getBytes()); else ms.set(rnd.nextInt(ms.size()), "forged".getBytes()); break;
                case "drop": if (ms.isEmpty()) ms.add("forged".getBytes()); else ms.remove(ms.size() - 1); break;
                case "more": ms.add("forged".getBytes()); break;
                case "swap": { if (ms.size() > 1) { byte[] x = ms.get(0); ms.set(0, ms.get(1)); ms.set(1, x); } else ms.add("forged".getBytes()); break; }
                case "node": {
                    List<Node> l = left.isEmpty() || (!right.isEmpty() && rnd.nextBoolean()) ? right : left;
                    if (l.isEmpty()) l.add(new Node(1, h("x"))); else { int k = rnd.nextInt(l.size()); if (rnd.nextBoolean()) l.get(k).v = h("x"); else l.remove(k); }
                    break;
                }
                case "wrap": {   // the one message hidden behind nodes whose counts cancel
                    left.clear(); right.clear(); ms.clear();
                    int c = rnd.nextInt(2) + 1;
                    List<Node> all = new ArrayList<>();
                    for (byte[] x : lv) all.add(new Node(1, x));
                    int keep = Math.min(all.size(), Math.max(1, done + 1));
                    left.addAll(all.subList(0, keep));
                    left.add(new Node(-c, h("junk")));
                    if (c == 2) left.add(new Node(1, h("junk2")));
                    ms.add("forged".getBytes());
                    right.addAll(all.subList(keep, all.size()));
                    break;
                }
                case "coll": {   // inner nodes of the tree presented as messages
                    List<Object[]> found = collapsed(b, done);
                    left.clear(); right.clear(); ms.clear();
                    if (found.isEmpty()) { ms.add("forged".getBytes()); break; }
                    Object[] f = found.get(rnd.nextInt(found.size()));
                    List<Sub> cut = (List<Sub>) f[0];
                    int[] ns = (int[]) f[1];
                    int i = (int) f[2], j = i + 1;
                    while (j < ns.length && ns[j] == 1 && rnd.nextBoolean()) j++;
                    for (int q = 0; q < ns.length; q++) {
                        if (q < i) left.add(new Node(ns[q], cut.get(q).v));
                        else if (q >= j) right.add(new Node(ns[q], cut.get(q).v));
                        else ms.add(cut.get(q).pre);
                    }
                    break;
                }
                case "forge": {
                    int edits = 1 + rnd.nextInt(3);
                    for (int e = 0; e < edits; e++) {
                        List<Node> l = rnd.nextBoolean() ? left : right;
                        switch (rnd.nextInt(6)) {
                            case 0: if (!l.isEmpty()) l.get(rnd.nextInt(l.size())).n = rnd.nextInt(7) - 3; break;
                            case 1: l.add(rnd.nextInt(l.size() + 1), new Node(rnd.nextInt(7) - 3, lv.isEmpty() || rnd.nextBoolean() ? h("junk") : lv.get(rnd.nextInt(lv.size())))); break;
                            case 2: if (!l.isEmpty()) l.remove(rnd.nextInt(l.size())); break;
                            case 3: ms.add(rnd.nextInt(ms.size() + 1), "forged".getBytes()); break;
                            case 4: if (!ms.isEmpty()) left.add(new Node(1, h(ms.remove(0)))); break;
                            case 5: if (!ms.isEmpty()) right.add(0, new Node(1, h(ms.remove(ms.size() - 1)))); break;
                        }
                    }
                    break;
                }
            }
            List<Object> mo = new ArrayList<>(ms);
            return rlp(enc(left), mo, enc(right));
        }
    }

    static void run(Object scn, long seed, List<Object> trace) {
        Random rnd = new Random(seed);
        Object c = get(scn, "c");
        Source s = new Source(c);
        Chain ch = new Chain("dst");
        Address bmc = addr("bmc"), bmv = addr("bmv"), stranger = addr("stranger");
        Object[] x = s.head(1);
        String bad = get(c, "bad");
        if (bad.equals("prev")) x[6] = h("something");
        if (bad.equals("pchash")) x[2] = h("something");
        int code = -1;
        try {
            // the contract fills in a static object; a chain would load the class for each contract
            synchronized (Main.class) { ch.deploy(bmv, stranger, () -> new BTPMessageVerifier(SRC, TYPE, bmc, rlp(x), BigInteger.valueOf(s.off))); }
        } catch (RuntimeException e) { code = -2; }
        trace.add(Json.ev("e", "deploy", "c", c, "code", code, "obs", code == -1 ? obs(ch, bmv) : List.of()));
        if (code != -1) return;
        long seq = s.off;
        int done = 0;
        for (Object o : Main.<List<?>>get(scn, "ops")) {
            List<Object> items = new ArrayList<>();
            for (Object it : Main.<List<?>>get(o, "items")) {
                boolean up = get(it, "t").equals("bu");
                if (up) done = 0;
                items.add(Arrays.asList(up ? 1 : 2, up ? s.update(it) : s.proof(it, rnd, done)));
            }
            byte[] m = rlp(items);
            String dam = get(o, "dam");
            if (dam.equals("flip")) m[rnd.nextInt(m.length)] ^= (byte) (1 << rnd.nextInt(8));
            if (dam.equals("cut")) m = Arrays.copyOf(m, rnd.nextInt(m.length));
            String by = get(o, "by"), cur = get(o, "cur"), prev = get(o, "prev");
            Chain.Result r = ch.transact(by.equals("bmc") ? bmc : stranger, BigInteger.ZERO, bmv, "handleRelayMessage",
                    cur.equals("junk") ? "nonsense" : "btp://0x1.icon/" + (cur.equals("bmc") ? bmc : stranger),
                    prev.equals("junk") ? "nonsense" : "btp://" + (prev.equals("src") ? "0x2.icon" : "0x3.icon") + "/cx00",
                    BigInteger.valueOf(seq + num(o, "dseq")), m);
            List<Object> ms = new ArrayList<>();
            if (r.code == -1) for (byte[] z : (byte[][]) r.value) {
                String[] p = new String(z).split(" ");
                boolean real = p.length == 3 && p[0].equals("message") && p[1].matches("\\d+") && p[2].matches("\\d+");
                ms.add(real ? List.of(Integer.parseInt(p[1]), Integer.parseInt(p[2])) : List.of(-1, -1));
                seq++;
                done++;
            }
            if (System.getenv("VDEBUG") != null) System.err.println(Json.out(o) + " -> " + r.code + " " + r.msg);
            trace.add(Json.ev("e", "relay", "o", o, "code", r.code, "ms", ms, "obs", obs(ch, bmv)));
        }
    }
    static List<Object> obs(Chain ch, Address bmv) {
        Chain.Result r = ch.transact(bmv, BigInteger.ZERO, bmv, "getStatus");
        BMVStatus st = (BMVStatus) r.value;
        Rlp.Reader e = new Rlp.Reader(st.getExtra());
        e.beginList();
        return List.of(st.getHeight(), e.readLong(), e.readLong(), e.readLong());
    }
    public static void main(String[] a) throws Exception { Driver.main(a, Main::run); }
}
