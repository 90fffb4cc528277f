import foundation.icon.btp.bmv.bridge.BTPMessageVerifier;
import foundation.icon.btp.lib.BMVStatus;
import score.Address;
import vm.Chain;
import vm.Crypto;
import vm.Driver;
import vm.Json;
import vm.Rlp;
import java.math.BigInteger;
import java.util.*;

/** The verifier of the bridge, called by its BMC and by others. */
public class Main {
    static Address addr(String name) {
        byte[] r = new byte[21];
        System.arraycopy(Crypto.hash("sha3-256", name.getBytes()), 0, r, 1, 20);
        r[0] = 1;
        return new Address(r);
    }
    @SuppressWarnings("unchecked") static <T> T get(Object o, String k) { return (T) ((Map<String, Object>) o).get(k); }
    static int num(Object o, String k) { return ((Number) get(o, k)).intValue(); }
    static byte[] msg(int m) { byte[] b = new byte[m * m * 5]; Arrays.fill(b, (byte) m); return b; }
    static long height(Chain ch) {
        Chain.Result r = ch.transact(addr("x"), BigInteger.ZERO, addr("bmv"), "getStatus");
        return r.code == -1 ? ((BMVStatus) r.value).getHeight() : -1;
    }
    static void run(Object scn, long seed, List<Object> trace) {
        Chain ch = new Chain("dst");
        int h0 = ((Number) get(scn, "c")).intValue();
        ch.deploy(addr("bmv"), addr("own"), () -> new BTPMessageVerifier(addr("bmc"), "src.net", BigInteger.valueOf(h0)));
        trace.add(Json.ev("e", "deploy", "h", h0, "height", height(ch)));
        Random rnd = new Random(seed);
        for (Object o : Main.<List<?>>get(scn, "ops")) {
            List<Object> rs = new ArrayList<>();
            for (Object r : Main.<List<?>>get(o, "rs")) {
                List<Object> es = new ArrayList<>();
                for (Object e : Main.<List<?>>get(r, "es")) es.add(Arrays.asList("btp://dst/" + addr("bmc"), num(e, "s"), msg(num(e, "m"))));
                rs.add(rlp(rnd.nextInt(300), rlp(es.toArray()), num(r, "h")));
            }
            byte[] b = rlp((Object) rs);
            String dam = get(o, "dam"), cur = get(o, "cur"), prev = get(o, "prev");
            if (dam.equals("cut")) b = Arrays.copyOf(b, b.length - 1 - rnd.nextInt(b.length - 1));
            if (dam.equals("type")) b = rlp(rlp((Object) rs));
            Chain.Result x = ch.transact(addr(get(o, "by")), BigInteger.ZERO, addr("bmv"), "handleRelayMessage",
                cur.equals("junk") ? "junk" : "btp://dst/" + addr(cur),
                prev.equals("junk") ? "junk" : "btp://" + (prev.equals("src") ? "src.net" : prev.equals("longer") ? "src.net2" : "oth.net") + "/" + addr("bmc"),
                BigInteger.valueOf(num(o, "seq")), b);
            List<Object> ms = new ArrayList<>();
            if (x.code == -1) for (byte[] m : (byte[][]) x.value) {
                int k = m == null || m.length == 0 ? 0 : m[0];
                ms.add(k > 0 && Arrays.equals(m, msg(k)) ? k : -1);
            }
            trace.add(Json.ev("e", "relay", "o", o, "code", x.code, "ms", ms, "height", height(ch)));
        }
    }
    static void put(Rlp.Writer w, Object o) {
        if (o == null) w.writeNull();
        else if (o instanceof List) { w.beginList(0); for (Object x : (List<?>) o) put(w, x); w.end(); }
        else if (o instanceof Integer) w.write((int) o);
        else if (o instanceof Long) w.write((long) o);
        else if (o instanceof String) w.write((String) o);
        else w.write((byte[]) o);
    }
    static byte[] rlp(Object... o) { Rlp.Writer w = new Rlp.Writer(); put(w, Arrays.asList(o)); return w.toByteArray(); }
    public static void main(String[] a) throws Exception { Driver.main(a, Main::run); }
}
