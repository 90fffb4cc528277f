import foundation.icon.btp.xcall.CallService;
import foundation.icon.btp.xcall.CallServiceImpl;
import score.Address;
import score.Context;
import score.ObjectReader;
import score.annotation.External;
import score.annotation.Payable;
import vm.Chain;
import vm.Crypto;
import vm.Driver;
import vm.Json;
import java.math.BigInteger;
import java.util.*;

/** Call services on two networks, with stand-ins for their BMCs and the contracts that use them. */
public class Main {
    static final String[] NETS = {"A", "B"}, NAMES = {"own", "u1", "u2", "h1", "h2", "d1", "d2", "cx", "bmc", "bmc2", "xcall"};
    static final Set<String> CX = Set.of("d1", "d2", "cx", "bmc", "bmc2", "xcall");
    static Address addr(String name) {
        byte[] r = new byte[21];
        System.arraycopy(Crypto.hash("sha3-256", name.getBytes()), 0, r, 1, 20);
        r[0] = (byte) (CX.contains(name) ? 1 : 0);
        return new Address(r);
    }
    static String text(String name) { return name.equals("text") ? "some text" : name.isEmpty() ? "" : addr(name).toString(); }
    static String name(String text) {
        for (String n : NAMES) if (addr(n).toString().equals(text)) return n;
        return text.equals("some text") ? "text" : "?" + text;
    }
    static String name(Address a) { return a == null ? "none" : name(a.toString()); }
    static List<Object> btp(String s) {
        if (!s.startsWith("btp://") || s.indexOf('/', 6) < 0) return List.of("?", s);
        int i = s.indexOf('/', 6);
        return List.of(s.substring(6, i), name(s.substring(i + 1)));
    }
    @SuppressWarnings("unchecked") static <T> T get(Object o, String k) { return (T) ((Map<String, Object>) o).get(k); }
    static int num(Object o, String k) { return ((Number) get(o, k)).intValue(); }
    static byte[] enc(Object d) {
        String a = get(d, "a");
        if (a.equals("null")) return null;
        if (a.equals("empty")) return new byte[0];
        StringBuilder s = new StringBuilder(a + "," + num(d, "n"));
        while (s.length() < num(d, "z")) s.append('.');
        return s.toString().getBytes();
    }
    static Map<String, Object> dec(byte[] b) {
        if (b == null) return Json.ev("a", "null", "n", 0, "z", 0);
        if (b.length == 0) return Json.ev("a", "empty", "n", 0, "z", 0);
        String s = new String(b);
        int e = s.indexOf('.');
        String[] p = (e < 0 ? s : s.substring(0, e)).split(",");
        try { return Json.ev("a", p[0], "n", Integer.parseInt(p[1]), "z", e < 0 ? 0 : b.length); }
        catch (RuntimeException x) { return Json.ev("a", "?" + s, "n", 0, "z", 0); }
    }

    /** The contract with its event logs recorded. */
    public static class Xc extends CallServiceImpl {
        public Xc(Address bmc) { super(bmc); }
        @Override public void CallMessage(String f, String t, BigInteger s, BigInteger r) { Chain.emit("e", List.of("CallMessage", btp(f), name(t), s, r)); }
        @Override public void CallExecuted(BigInteger r, int c, String m) { Chain.emit("e", List.of("CallExecuted", r, c)); }
        @Override public void ResponseMessage(BigInteger s, int c, String m) { Chain.emit("e", List.of("ResponseMessage", s, c)); }
        @Override public void RollbackMessage(BigInteger s) { Chain.emit("e", List.of("RollbackMessage", s)); }
        @Override public void RollbackExecuted(BigInteger s, int c, String m) { Chain.emit("e", List.of("RollbackExecuted", s, c)); }
        @Override public void CallMessageSent(Address f, String t, BigInteger s, BigInteger n) { Chain.emit("e", List.of("CallMessageSent", name(f), btp(t), s, n)); }
    }
    static class Msg { String src, dst; BigInteger sn; byte[] bytes; Object rec; }

    /** Takes messages for the other network and keeps them for the driver. */
    public static class Bmc {
        final World w; final String net; int nsn; long fee; boolean down;
        Bmc(World w, String net) { this.w = w; this.net = net; }
        void reach(String to) { if (!to.equals(net.equals("A") ? "B" : "A")) Context.revert(24, "unreachable"); }
        @External(readonly = true) public String getBtpAddress() { return "btp://" + net + "/" + Context.getAddress(); }
        @External(readonly = true) public BigInteger getFee(String _to, boolean _response) { reach(_to); return BigInteger.valueOf(_response ? 2 * fee : fee); }
        @Payable @External public BigInteger sendMessage(String _to, String _svc, BigInteger _sn, byte[] _msg) {
            reach(_to);
            if (down || !_svc.equals(CallService.NAME) || !Context.getCaller().equals(addr("xcall"))) Context.revert(5, "refused");
            Msg m = new Msg();
            m.src = net; m.dst = _to; m.sn = _sn; m.bytes = _msg;
            m.rec = rec(m, Context.getValue());
            w.sent.add(m);
            return BigInteger.valueOf(nsn + ++w.staged);
        }
        Object rec(Msg m, BigInteger value) {
            ObjectReader r = Context.newByteArrayObjectReader("RLPn", m.bytes);
            r.beginList();
            int t = r.readInt();
            byte[] b = r.readNullable(byte[].class);
            boolean more = r.hasNext();
            r.end();
            ObjectReader q = Context.newByteArrayObjectReader("RLPn", b);
            q.beginList();
            Map<String, Object> e;
            if (t == 1) {
                String from = q.readString(), to = q.readString();
                BigInteger sn = q.readBigInteger();
                boolean rb = q.readBoolean();
                e = Json.ev("t", "req", "src", m.src, "dst", m.dst, "val", value, "bsn", m.sn, "from", name(from), "to", name(to), "sn", sn, "rb", rb, "data", dec(q.readNullable(byte[].class)), "code", 0);
            } else {
                BigInteger sn = q.readBigInteger();
                int c = q.readInt();
                q.readNullable(String.class);
                e = Json.ev("t", t == 2 ? "res" : "?", "src", m.src, "dst", m.dst, "val", value, "bsn", m.sn, "from", "", "to", "", "sn", sn, "rb", false, "data", dec(null), "code", c);
            }
            if (more || q.hasNext()) e.put("t", "?");
            return e;
        }
    }
    /** A contract that does what the data it is called with says. */
    public static class Dapp {
        final World w; final String net, me;
        Dapp(World w, String net, String me) { this.w = w; this.net = net; this.me = me; }
        int depth;
        @External public void handleCallMessage(String _from, byte[] _data) {
            Map<String, Object> d = dec(_data);
            w.calls.add(Json.ev("n", net, "at", Context.getCaller().equals(addr("xcall")) ? me : "?", "who", btp(_from), "d", d));
            if (depth > 0) return;
            switch ((String) d.get("a")) {
                case "rev": Context.revert(((Number) d.get("n")).intValue(), "no"); break;
                case "throw": throw new IllegalStateException("fails");
                case "re":
                    depth++;
                    try { Context.call(addr("xcall"), w.fn, w.k); } catch (RuntimeException e) { /* as it should be */ }
                    finally { depth--; }
                    break;
                case "send":
                    try { Context.call(addr("xcall"), "sendCallMessage", "btp://" + (net.equals("A") ? "B" : "A") + "/" + addr("d2"), enc(Json.ev("a", "ok", "n", 0, "z", 0))); }
                    catch (RuntimeException e) { Context.revert(7, "cannot send"); }
                    break;
            }
        }
    }
    static class World {
        Map<String, Chain> ch = new HashMap<>();
        Map<String, Bmc> bmc = new HashMap<>();
        List<Msg> sent = new ArrayList<>(), pool = new ArrayList<>();
        List<Object> calls = new ArrayList<>();
        int staged; String fn; BigInteger k;
        World() {
            for (String n : NETS) {
                Chain c = new Chain(n);
                Bmc b = new Bmc(this, n);
                ch.put(n, c); bmc.put(n, b);
                c.deploy(addr("bmc"), addr("own"), () -> b);
                c.deploy(addr("bmc2"), addr("own"), () -> new Bmc(this, "X"));
                c.deploy(addr("xcall"), addr("own"), () -> new Xc(addr("bmc")));
                for (String d : new String[]{"d1", "d2"}) c.deploy(addr(d), addr("own"), () -> new Dapp(this, n, d));
            }
        }
        Object view(String n, String m, Object... a) {
            Chain.Result r = ch.get(n).transact(addr("u1"), BigInteger.ZERO, addr("xcall"), m, a);
            return r.code == -1 ? r.value : "failed";
        }
        Object obs(String n) {
            Chain c = ch.get(n);
            String o = n.equals("A") ? "B" : "A";
            Object h = view(n, "getProtocolFeeHandler"), a = view(n, "admin");
            String self = String.valueOf(view(n, "getBtpAddress"));
            return Json.ev("fee", view(n, "getProtocolFee"), "handler", h == null ? "none" : h instanceof Address ? name((Address) h) : "failed",
                "admin", !self.equals("btp://" + n + "/" + addr("xcall")) ? "wrong address " + self : a instanceof Address ? name((Address) a) : "failed",
                "f1", view(n, "getFee", o, false), "f2", view(n, "getFee", o, true),
                "x", c.balance(addr("xcall")), "h1", c.balance(addr("h1")), "h2", c.balance(addr("h2")), "bmc", c.balance(addr("bmc")));
        }
    }

    static void run(Object scn, long seed, List<Object> trace) {
        World w = new World();
        for (Object o : Main.<List<?>>get(scn, "ops")) {
            String op = get(o, "op"), n = get(o, "n");
            Chain c = w.ch.get(n);
            w.calls.clear(); w.sent.clear(); w.staged = 0; c.takeEvents();
            Address xcall = addr("xcall"), bmc = addr("bmc");
            Chain.Result r = new Chain.Result();
            BigInteger Z = BigInteger.ZERO;
            switch (op) {
                case "send": {
                    String to = get(o, "net");
                    to = to.equals("junk") ? "junk" : "btp://" + to + "/" + text(get(o, "to"));
                    Address by = addr(get(o, "by"));
                    BigInteger v = BigInteger.valueOf(num(o, "val"));
                    BigInteger had = c.balance(by);
                    c.mint(by, v);
                    byte[] rb = enc(get(o, "rb"));
                    r = rb == null && seed % 2 == 0 ? c.transact(by, v, xcall, "sendCallMessage", to, enc(get(o, "data")))
                            : c.transact(by, v, xcall, "sendCallMessage", to, enc(get(o, "data")), rb);
                    if (r.code != -1) c.mint(by, v.negate());
                    if (!c.balance(by).equals(had)) r.msg = "MONEY";
                    break;
                }
                case "deliver": case "error": {
                    Msg m = w.pool.get(num(o, "i") - 1);
                    String how = get(o, "how");
                    Address by = how.equals("notbmc") ? addr("u1") : bmc;
                    String svc = how.equals("svc") ? "other" : CallService.NAME;
                    byte[] b = m.bytes.clone();
                    if (how.equals("cut")) b = Arrays.copyOf(b, b.length - 1);
                    // the type is the first thing behind the head of the list
                    if (how.equals("type")) b[(b[0] & 0xff) <= 0xf7 ? 1 : 1 + (b[0] & 0xff) - 0xf7] = 3;
                    if (op.equals("error")) r = c.transact(by, Z, xcall, "handleBTPError", "btp://" + m.dst + "/bmc", svc, m.sn, (long) num(o, "v"), "error");
                    else r = c.transact(by, Z, xcall, "handleBTPMessage", m.src, svc, m.sn.abs(), b);
                    if (r.code == -1) w.pool.remove(num(o, "i") - 1);
                    break;
                }
                case "stray": r = c.transact(bmc, Z, xcall, "handleBTPError", "btp://" + (n.equals("A") ? "B" : "A") + "/bmc", CallService.NAME, BigInteger.valueOf(num(o, "k")), 26L, "error"); break;
                case "drop": w.pool.remove(num(o, "i") - 1); break;
                case "exec": case "roll":
                    w.fn = op.equals("exec") ? "executeCall" : "executeRollback";
                    w.k = BigInteger.valueOf(num(o, "k"));
                    r = c.transact(addr(get(o, "by")), Z, xcall, w.fn, w.k);
                    break;
                case "admin": r = c.transact(addr(get(o, "by")), Z, xcall, "setAdmin", addr(get(o, "who"))); break;
                case "handler": {
                    String who = get(o, "who");
                    r = who.equals("none") ? c.transact(addr(get(o, "by")), Z, xcall, "setProtocolFeeHandler") : c.transact(addr(get(o, "by")), Z, xcall, "setProtocolFeeHandler", addr(who));
                    break;
                }
                case "fee": r = c.transact(addr(get(o, "by")), Z, xcall, "setProtocolFee", BigInteger.valueOf(num(o, "v"))); break;
                case "bfee": w.bmc.get(n).fee = num(o, "v"); break;
                case "down": w.bmc.get(n).down = get(o, "v"); break;
                case "update": c.deploy(xcall, addr("own"), () -> new Xc(addr("bmc2"))); break;
            }
            boolean ok = r.code == -1;
            List<Object> ev = new ArrayList<>(), sent = new ArrayList<>();
            for (Chain.Event e : c.takeEvents()) ev.add(e.args[0]);
            if (ok) { for (Msg m : w.sent) { w.pool.add(m); sent.add(m.rec); } w.bmc.get(n).nsn += w.sent.size(); }
            trace.add(Json.ev("o", o, "ok", ok, "ev", ev, "calls", ok ? new ArrayList<>(w.calls) : List.of(), "sent", sent,
                "ret", ok && r.value instanceof BigInteger ? r.value : 0, "obs", Json.ev("A", w.obs("A"), "B", w.obs("B"))));
        }
    }
    public static void main(String[] a) throws Exception { Driver.main(a, Main::run); }
}
