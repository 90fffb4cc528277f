import foundation.icon.btp.bmv.icon.BTPMessageVerifier;
import foundation.icon.btp.lib.BMVStatus;
import score.Address;
import vm.Chain;
import vm.Crypto;
import vm.Driver;
import vm.Json;
import vm.Rlp;
import java.math.BigInteger;
import java.util.*;

/** A chain with ICON blocks, relay messages made from it, and the verifier. */
public class Main {
    static byte[] h(byte[] b) { return Crypto.hash("sha3-256", b); }
    static byte[] h(String s) { return h(s.getBytes()); }
    static byte[] h(byte[] a, byte[] b) { byte[] r = Arrays.copyOf(a, 64); System.arraycopy(b, 0, r, 32, 32); return h(r); }
    static Address addr(String name) {
        byte[] r = new byte[21];
        System.arraycopy(h(name), 0, r, 1, 20);
        r[0] = 1;
        return new Address(r);
    }
    static void put(Rlp.Writer w, Object o) {
        if (o == null) w.writeNull();
        else if (o instanceof List) { w.beginList(0); for (Object x : (List<?>) o) put(w, x); w.end(); }
        else if (o instanceof Integer) w.write((int) o);
        else if (o instanceof Long) w.write((long) o);
        else if (o instanceof Address) w.write((Address) o);
        else w.write((byte[]) o);
    }
    static byte[] rlp(Object... o) { return rlp(Arrays.asList(o)); }
    static byte[] rlp(List<?> o) { Rlp.Writer w = new Rlp.Writer(); put(w, o); return w.toByteArray(); }
    static byte[] str(String s) { return s.getBytes(); }
    static final Map<Integer, Address> WHO = new java.util.concurrent.ConcurrentHashMap<>();
    static BigInteger key(int k) { return new BigInteger(1, h("key " + k)).shiftRight(1); }
    static Address who(int k) { return WHO.computeIfAbsent(k, x -> Crypto.address(Crypto.publicKey(key(x), true))); }
    static int n(Object o) { return ((Number) o).intValue(); }
    static <T> T get(Object m, String k) { @SuppressWarnings("unchecked") T t = (T) ((Map<?, ?>) m).get(k); return t; }
    static int num(Object m, String k) { return n(get(m, k)); }
    static List<?> list(Object m, String k) { return get(m, k); }

    /** A Merkle Patricia tree of index -> value. */
    static class Trie {
        final TreeMap<Long, byte[]> vals = new TreeMap<>();
        final Map<Long, List<byte[]>> proofs = new HashMap<>();
        byte[] root;
        static int[] nibbles(long i) {
            Rlp.Writer w = new Rlp.Writer();
            w.write(i);
            byte[] b = w.toByteArray();
            int[] r = new int[b.length * 2];
            for (int j = 0; j < b.length; j++) { r[2 * j] = b[j] >> 4 & 15; r[2 * j + 1] = b[j] & 15; }
            return r;
        }
        static byte[] prefix(int[] nb, int from, int to, boolean leaf) {
            int len = to - from;
            byte[] r = new byte[len / 2 + 1];
            int at = from;
            r[0] = (byte) ((leaf ? 0x20 : 0) | (len % 2 == 1 ? 0x10 | nb[at++] : 0));
            for (int i = 1; i < r.length; i++) { r[i] = (byte) (nb[at] << 4 | nb[at + 1]); at += 2; }
            return r;
        }
        byte[] build(List<Long> keys, int d) {
            int[] a = nibbles(keys.get(0));
            byte[] me;
            if (keys.size() == 1) me = rlp(prefix(a, d, a.length, true), vals.get(keys.get(0)));
            else {
                int common = a.length;
                for (long k : keys) { int[] b = nibbles(k); int j = d; while (j < Math.min(common, b.length) && a[j] == b[j]) j++; common = Math.min(common, j); }
                if (common > d) me = rlp(prefix(a, d, common, false), build(keys, common));
                else {
                    List<Object> br = new ArrayList<>();
                    for (int x = 0; x < 16; x++) {
                        List<Long> sub = new ArrayList<>();
                        for (long k : keys) if (nibbles(k)[d] == x) sub.add(k);
                        br.add(sub.isEmpty() ? new byte[0] : build(sub, d + 1));
                    }
                    br.add(new byte[0]);
                    me = rlp(br);
                }
            }
            if (me.length < 32) throw new IllegalStateException("small node");
            for (long k : keys) proofs.computeIfAbsent(k, x -> new ArrayList<>()).add(0, me);
            return h(me);
        }
        void done() { if (!vals.isEmpty()) root = build(new ArrayList<>(vals.keySet()), 0); }
        List<Object> proof(Random rnd, long i, String alt) {
            List<byte[]> p = new ArrayList<>();
            for (byte[] x : proofs.getOrDefault(i, List.of(h("nothing")))) p.add(x.clone());
            int at = rnd.nextInt(p.size());
            if (alt.equals("node")) p.get(at)[rnd.nextInt(p.get(at).length)] ^= (byte) (1 << rnd.nextInt(8));
            if (alt.equals("cut")) p.remove(p.size() - 1);
            if (alt.equals("more")) p.add(h("more"));
            return Arrays.asList(alt.equals("idx") ? i + 1 : i, rlp(p));
        }
    }

    static final Address BMC = addr("bmc"), SRC = addr("source bmc"), OTHER = addr("other contract");
    static final String US = "btp://0x1.icon/" + BMC, THEM = "btp://0x9.icon/" + BMC;

    static class Block { Trie receipts = new Trie(); List<Trie> events = new ArrayList<>(); Object[] head; byte[] hash; }

    static class Source {
        final Object c;
        final List<?> blocks;
        final long off;
        final Map<List<Integer>, Block> made = new HashMap<>();
        Source(Object c) { this.c = c; blocks = list(c, "blocks"); off = num(c, "off"); }
        List<?> set(int i) { return (List<?>) list(c, "sets").get(i - 1); }
        byte[] validators(int i) { List<Object> l = new ArrayList<>(); for (Object k : set(i)) l.add(who(n(k))); return rlp(l); }
        byte[] event(Object e, int v) {
            boolean msg = get(e, "sig").equals("msg");
            return rlp(get(e, "a").equals("bmc") ? SRC : OTHER,
                    Arrays.asList(str(msg ? "Message(str,int,bytes)" : "MessageSent(str,int,bytes)"), str(get(e, "nx").equals("us") ? US : THEM), BigInteger.valueOf(num(e, "s")).toByteArray()),
                    Arrays.asList(str("message " + (num(e, "m") + 100 * v))));
        }
        byte[] filler(String s) { return rlp(0, null, h(s), h("a"), h("b"), null, List.of(), null, null); }
        Block block(int b, int v) { return made.computeIfAbsent(List.of(b, v), x -> make(b, v)); }
        Block make(int b, int v) {
            Block r = new Block();
            Object blk = blocks.get(b - 1);
            long top = 0;
            for (Object rc : list(blk, "rs")) {
                Trie ev = new Trie();
                List<Object> inl = new ArrayList<>();
                boolean hashed = get(rc, "hashed");
                long last = 0;
                for (Object e : list(rc, "es")) {
                    if (hashed) { ev.vals.put((long) num(e, "x"), event(e, v)); last = num(e, "x"); } else inl.add(event(e, v));
                }
                if (hashed) for (long i = 0; i <= last + b % 3; i++) ev.vals.putIfAbsent(i, rlp(OTHER, List.of(str("Some(int)"), str("filler " + b + " " + v)), List.of(h("f" + i))));
                ev.done();
                r.events.add(ev);
                r.receipts.vals.put((long) num(rc, "x"), rlp(0, h("to"), h("steps" + b + v), h("a"), h("b"), new byte[]{1}, inl, null, ev.root));
                top = num(rc, "x");
            }
            if (Main.<Boolean>get(blk, "res")) for (long i = 0; i < top + num(blk, "n"); i++) r.receipts.vals.putIfAbsent(i, filler("receipt " + b + " " + v + " " + i));
            r.receipts.done();
            Object ext = b % 2 == 0 ? List.of(h("x")) : null;
            List<Object> res = new ArrayList<>(Arrays.asList(h("state"), null, r.receipts.root));
            if (b % 3 == 0) res.add(rlp(List.of(h("ext"))));
            r.head = new Object[]{2, off + b, 1000L * b + v, b % 4 == 0 ? null : who(1), h("prev" + b), h("votes" + b), h(validators(num(blk, "nv"))), null, h("tx"), new byte[]{(byte) b},
                    Main.<Boolean>get(blk, "res") ? rlp(res) : null};
            r.hash = h(rlp(r.head));
            return r;
        }
        byte[] voteHash(long height, long round, int type, byte[] id, Object part, long ts) { return h(rlp(height, round, type, id, part, ts)); }
        byte[] update(Object u) {
            int b = num(u, "b");
            String alt = get(u, "alt");
            Block k = block(b, num(u, "v"));
            Object[] head = k.head.clone();
            long round = b % 3;
            Object part = b % 5 == 0 ? null : Arrays.asList(1, h("part"));
            List<Object> votes = new ArrayList<>();
            long ts = 5000;
            for (Object vt : list(u, "votes")) {
                String kind = get(vt, "kind");
                ts += 7;
                byte[] sig = Crypto.sign(key(num(vt, "k")), voteHash(off + b, kind.equals("round") ? round + 1 : round, kind.equals("type") ? 0 : 1, kind.equals("hash") ? h("other") : k.hash, part, ts));
                if (kind.equals("short")) sig = Arrays.copyOf(sig, 64);
                votes.add(Arrays.asList(ts, sig));
            }
            switch (alt) {
                case "time": head[2] = 77L; break;
                case "next": head[6] = h(validators(1 + b % 4)); if (Arrays.equals((byte[]) head[6], (byte[]) k.head[6])) head[6] = h("x"); break;
                case "height": head[1] = (long) head[1] + 1; break;
                case "result": head[10] = head[10] == null ? rlp(h("s"), null, h("r")) : null; break;
                case "round": round++; break;
                case "part": part = part == null ? Arrays.asList(1, h("part")) : null; break;
            }
            int nv = num(u, "nv");
            return rlp(alt.equals("nohead") ? null : rlp(head), alt.equals("novotes") ? null : rlp(round, part, votes), nv == 0 ? null : validators(nv));
        }
        byte[] root(List<byte[]> l) { return l.size() == 1 ? l.get(0) : h(root(l.subList(0, l.size() / 2)), root(l.subList(l.size() / 2, l.size()))); }
        List<byte[]> witness(List<byte[]> acc, int b, int of) {      // of leaf b (1..) among the first of
            List<byte[]> w = new ArrayList<>();
            if (b > of) { w.add(h("none")); w.add(h("none2")); return w; }
            int from = 0, left = of;
            while (true) {
                int n = Integer.highestOneBit(left);
                if (b - 1 < from + n) {
                    List<byte[]> t = acc.subList(from, from + n);
                    int i = b - 1 - from;
                    for (int s = 1; s < n; s *= 2) { int sib = (i / s) ^ 1; w.add(root(t.subList(sib * s, sib * s + s))); }
                    return w;
                }
                from += n;
                left -= n;
            }
        }
        byte[] proof(Random rnd, Object p, List<byte[]> acc) {
            String alt = get(p, "alt");
            int b = num(p, "b");
            List<byte[]> w = witness(acc, b, num(p, "of"));
            if (alt.equals("node")) { if (w.isEmpty()) w.add(h("x")); else w.set(rnd.nextInt(w.size()), h("x")); }
            if (alt.equals("cut")) { if (w.isEmpty()) w.add(h("x")); else w.remove(w.size() - 1); }
            if (alt.equals("more")) w.add(h("x"));
            return rlp(rlp(block(b, num(p, "v")).head), alt.equals("nil") ? null : Arrays.asList(off + num(p, "at"), w));
        }
        byte[] receipt(Random rnd, Object p) {
            int b = num(p, "b"), r = num(p, "r");
            Block k = block(b, num(p, "v"));
            Object rc = list(blocks.get(b - 1), "rs").get(r - 1);
            List<Object> out = new ArrayList<>(k.receipts.proof(rnd, num(rc, "x"), get(p, "alt")));
            List<Object> evs = new ArrayList<>();
            for (Object e : list(p, "evs")) evs.add(k.events.get(r - 1).proof(rnd, num(list(rc, "es").get(num(e, "i") - 1), "x"), get(e, "alt")));
            out.add(Main.<Boolean>get(p, "inl") ? null : evs);
            return rlp(out);
        }
    }

    static void fresh() {   // the contract fills in a static object; a chain would load the class for each contract
        try {
            Class<?> p = Class.forName("foundation.icon.btp.bmv.icon.BMVProperties");
            Object d = p.getField("DEFAULT").get(null);
            for (java.lang.reflect.Method m : p.getMethods()) {
                if (m.getName().equals("setLastHeight")) m.invoke(d, 0L);
                if (m.getName().equals("setMta")) m.invoke(d, (Object) null);
            }
        } catch (ReflectiveOperationException | RuntimeException e) { /* not how it is done any more */ }
    }

    static void run(Object scn, long seed, List<Object> trace) {
        Random rnd = new Random(seed);
        Object c = get(scn, "c");
        Source s = new Source(c);
        Chain ch = new Chain("dst");
        Address bmv = addr("bmv"), stranger = addr("stranger");
        StringBuilder vs = new StringBuilder();
        for (Object k : s.set(num(c, "v0"))) vs.append(vs.length() == 0 ? "" : ",").append(who(n(k)));
        synchronized (Main.class) { fresh(); ch.deploy(bmv, stranger, () -> new BTPMessageVerifier(BMC, "0x2.icon", vs.toString(), s.off)); }
        trace.add(Json.ev("e", "deploy", "c", c, "obs", obs(ch, bmv)));
        List<byte[]> acc = new ArrayList<>();
        for (Object o : list(scn, "ops")) {
            List<byte[]> more = new ArrayList<>();
            List<Object> ups = new ArrayList<>(), rps = new ArrayList<>();
            for (Object u : list(o, "ups")) { ups.add(s.update(u)); more.add(s.block(num(u, "b"), num(u, "v")).hash); }
            for (Object p : list(o, "rps")) rps.add(s.receipt(rnd, p));
            List<?> bp = list(o, "bp");
            byte[] m = rlp(ups.isEmpty() && rnd.nextBoolean() ? null : ups, bp.isEmpty() ? null : s.proof(rnd, bp.get(0), acc), rps.isEmpty() && rnd.nextBoolean() ? null : rps);
            String dam = get(o, "dam");
            if (dam.equals("cut")) m = Arrays.copyOf(m, m.length - 1 - rnd.nextInt(Math.min(8, m.length)));
            if (dam.equals("type")) m = rlp(h("not"), h("a"), h("message"));
            String by = get(o, "by"), cur = get(o, "cur"), prev = get(o, "prev");
            Chain.Result r = ch.transact(by.equals("bmc") ? BMC : stranger, BigInteger.ZERO, bmv, "handleRelayMessage",
                    cur.equals("junk") ? "nonsense" : cur.equals("bmc") ? US : cur.equals("net") ? THEM : "btp://0x1.icon/" + stranger,
                    prev.equals("junk") ? "nonsense" : "btp://" + (prev.equals("net") ? "0x3.icon" : prev.equals("longer") ? "0x2.icon2" : "0x2.icon") + "/" + (prev.equals("acct") ? OTHER : SRC),
                    BigInteger.valueOf(num(o, "seq")), m);
            List<Object> ms = new ArrayList<>();
            if (r.code == -1) {
                acc.addAll(more);
                for (byte[] z : (byte[][]) r.value) ms.add(z == null ? -1 : new String(z).matches("message \\d+") ? Integer.parseInt(new String(z).substring(8)) : -2);
            }
            if (System.getenv("VDEBUG") != null) System.err.println(Json.out(o) + " -> " + r.code + " " + r.msg);
            trace.add(Json.ev("e", "relay", "o", o, "code", r.code, "ms", ms, "obs", obs(ch, bmv)));
        }
    }
    static List<Object> obs(Chain ch, Address bmv) {
        Chain.Result r = ch.transact(bmv, BigInteger.ZERO, bmv, "getStatus");
        BMVStatus st = (BMVStatus) r.value;
        Rlp.Reader e = new Rlp.Reader(st.getExtra());
        e.beginList();
        return List.of(st.getHeight(), e.readLong(), e.readLong());
    }
    public static void main(String[] a) throws Exception { Driver.main(a, Main::run); }
}
