import foundation.icon.btp.FeeAggregationSCORE;
import score.Address;
import score.Context;
import score.DictDB;
import score.annotation.External;
import score.annotation.Payable;
import vm.Chain;
import vm.Crypto;
import vm.Driver;
import vm.Json;
import java.math.BigInteger;
import java.util.*;

/** The fee aggregation with stand-ins for the tokens, the price oracle and the fund. */
public class Main {
    static final String[] ACCTS = {"u1", "u2", "k1"}, TOKS = {"P", "Q", "R"};
    static final Set<String> CX = Set.of("k1", "fas", "cps", "band", "t2", "t31");
    static final String[] NAMES = {"own", "u1", "u2", "k1", "fas", "cps", "band", "t2", "t31"};
    static final Map<String, Integer> IDS = Map.of("P", 0, "Q", 7, "R", 8);
    static final BigInteger Z = BigInteger.ZERO, BLOCK = BigInteger.valueOf(1000000);
    static Address addr(String name) {
        byte[] r = new byte[21];
        System.arraycopy(Crypto.hash("sha3-256", name.getBytes()), 0, r, 1, 20);
        r[0] = (byte) (CX.contains(name) ? 1 : 0);
        return new Address(r);
    }
    static String name(String text) {
        for (String n : NAMES) if (addr(n).toString().equals(text)) return n;
        return "?" + text;
    }
    @SuppressWarnings("unchecked") static <T> T get(Object o, String k) { return (T) ((Map<String, Object>) o).get(k); }
    static int num(Object o, String k) { return ((Number) get(o, k)).intValue(); }
    static BigInteger big(Object v) { return BigInteger.valueOf(((Number) v).longValue()); }
    static Object blocks(BigInteger t) { return t.mod(BLOCK).signum() == 0 ? t.divide(BLOCK) : "?" + t; }
    static Object blocks(String hex) { return blocks(new BigInteger(hex.substring(2), 16)); }
    static BigInteger hex(String h) { return new BigInteger(h.substring(2), 16); }

    public static class Fas extends FeeAggregationSCORE {
        public Fas() { super(addr("cps"), addr("band")); }
        @Override protected void DepositInfo(BigInteger i, String t, Address a, BigInteger v) { Chain.emit("e", List.of("deposit", i, t, name(a.toString()), v)); }
        @Override protected void SyndicationStart(BigInteger i, String t, BigInteger n, Address a, BigInteger v, long d) {
            Chain.emit("e", List.of("start", i, t, n, name(a.toString()), v, blocks(BigInteger.valueOf(d))));
        }
        @Override protected void SyndicationEnded(BigInteger i, String t, BigInteger n, long d) { Chain.emit("e", List.of("end", i, t, n, blocks(BigInteger.valueOf(d)))); }
    }
    /** A token contract: IRC2 if it has no ids, else IRC31. */
    public static class Tok {
        final World w; final boolean many;
        final DictDB<String, BigInteger> db = Context.newDictDB("b", BigInteger.class);
        Tok(World w, boolean many) { this.w = w; this.many = many; }
        String key(Address a, BigInteger id) { return a + "/" + id; }
        @External(readonly = true) public BigInteger decimals() { if (many) Context.revert(1, "none"); return BigInteger.ONE; }
        @External(readonly = true) public BigInteger balanceOf(Address _owner, BigInteger _id) {
            if (many == (_id == null)) Context.revert(2, "no such method");
            return db.getOrDefault(key(_owner, many ? _id : Z), Z);
        }
        void move(Address from, Address to, BigInteger id, BigInteger v, byte[] data) {
            if (w.down.contains("tok")) Context.revert(3, "out of order");
            if (v.signum() < 0 || (from != null && db.getOrDefault(key(from, id), Z).compareTo(v) < 0)) Context.revert(4, "balance");
            if (from != null) db.set(key(from, id), db.getOrDefault(key(from, id), Z).subtract(v));
            db.set(key(to, id), db.getOrDefault(key(to, id), Z).add(v));
            if (!to.isContract()) return;
            Address f = from == null ? addr("own") : from;
            if (!many) Context.call(to, "tokenFallback", f, v, data);
            else if (v.testBit(0)) Context.call(to, "onIRC31Received", Context.getCaller(), f, id, v, data);
            else Context.call(to, "onIRC31BatchReceived", Context.getCaller(), f, new BigInteger[]{id}, new BigInteger[]{v}, data);
        }
        @External public void mint(Address a, BigInteger id, BigInteger v) { move(null, a, id, v, new byte[0]); }
        @External public void transfer(Address _to, BigInteger _value, byte[] _data) {
            if (many) Context.revert(2, "no such method");
            move(Context.getCaller(), _to, Z, _value, _data);
        }
        @External public void transferFrom(Address _from, Address _to, BigInteger _id, BigInteger _value, byte[] _data) {
            if (!many) Context.revert(2, "no such method");
            if (!Context.getCaller().equals(_from)) Context.revert(5, "not approved");
            move(_from, _to, _id, _value, _data);
        }
    }
    public static class Band {
        final World w;
        Band(World w) { this.w = w; }
        @External(readonly = true) public Map<String, Object> get_reference_data(String _base, String _quote) {
            if (w.down.contains("band") || !_quote.equals("ICX")) Context.revert(1, "no price");
            return Map.of("rate", w.price.get(_base), "last_update_base", Z, "last_update_quote", Z);
        }
    }
    public static class Cps {
        final World w;
        Cps(World w) { this.w = w; }
        @Payable @External public void add_fund() { if (w.down.contains("cps")) Context.revert(1, "closed"); }
    }
    /** A contract that takes part and does something when it is paid. */
    public static class Holder {
        final World w;
        Holder(World w) { this.w = w; }
        void paid() {
            if (w.arm == null || w.hook != null) return;
            String a = get(w.arm, "op");
            if (a.equals("none")) return;
            if (a.equals("rev")) Context.revert(1, "no thanks");
            w.hook = "";
            try {
                switch (a) {
                    case "withdrawal": Context.call(addr("fas"), "withdrawal"); break;
                    case "claim": Context.call(addr("fas"), "claim", Main.<String>get(w.arm, "tok")); break;
                    case "deposit": Context.call(big(get(w.arm, "v")), addr("fas"), "deposit", Main.<String>get(w.arm, "tok")); break;
                }
                w.hook = "ok";
            } catch (RuntimeException e) { w.hook = "fail"; }
        }
        @Payable public void fallback() { paid(); }
        @External public void tokenFallback(Address f, BigInteger v, byte[] d) { paid(); }
        @External public void onIRC31Received(Address o, Address f, BigInteger i, BigInteger v, byte[] d) { paid(); }
        @External public void onIRC31BatchReceived(Address o, Address f, BigInteger[] i, BigInteger[] v, byte[] d) { paid(); }
    }
    static class World {
        final Chain c = new Chain("A");
        final Set<String> down = new HashSet<>();
        final Map<String, BigInteger> price = new HashMap<>();
        Object arm; String hook;
        World() {
            c.deploy(addr("t2"), addr("own"), () -> new Tok(this, false));
            c.deploy(addr("t31"), addr("own"), () -> new Tok(this, true));
            c.deploy(addr("band"), addr("own"), () -> new Band(this));
            c.deploy(addr("cps"), addr("own"), () -> new Cps(this));
            c.deploy(addr("k1"), addr("own"), () -> new Holder(this));
            c.deploy(addr("fas"), addr("own"), Fas::new);
            for (String t : TOKS) price.put(t, BigInteger.valueOf(100));
            for (String a : ACCTS) c.mint(addr(a), BigInteger.valueOf(100000));
        }
        String contract(String t) { return t.equals("P") ? "t2" : "t31"; }
        Object view(String who, String m, Object... a) {
            Chain.Result r = c.transact(addr("u2"), Z, addr(who), m, a);
            return r.code == -1 ? r.value : "failed";
        }
        Object held(String t, Address a) {
            return t.equals("P") ? view("t2", "balanceOf", a) : view("t31", "balanceOf", a, BigInteger.valueOf(IDS.get(t)));
        }
        Object obs() {
            Map<String, Object> icx = new TreeMap<>(), have = new TreeMap<>(), bal = new TreeMap<>(), ref = new TreeMap<>(), dep = new TreeMap<>(), av = new TreeMap<>(), syn = new TreeMap<>();
            for (String a : new String[]{"u1", "u2", "k1", "fas", "cps"}) icx.put(a, c.balance(addr(a)));
            for (String a : ACCTS) ref.put(a, view("fas", "getRefundableBalance", addr(a)));
            List<Object> toks = new ArrayList<>();
            for (Object x : (List<?>) view("fas", "tokens")) toks.add(List.of(get(x, "name"), name(get(x, "address")), new BigInteger(Main.<String>get(x, "tokenId"))));
            for (String t : TOKS) {
                Map<String, Object> h = new TreeMap<>(), b = new TreeMap<>(), d = new TreeMap<>();
                for (String a : new String[]{"u1", "u2", "k1", "fas"}) h.put(a, held(t, addr(a)));
                for (String a : ACCTS) {
                    b.put(a, view("fas", "getTokenBalance", t, addr(a)));
                    Object v = view("fas", "getDepositedAmount", t, addr(a));
                    d.put(a, v.equals("failed") ? -1 : v);
                }
                have.put(t, h); bal.put(t, b); dep.put(t, d);
                Object v = view("fas", "availableBalance", t);
                av.put(t, v.equals("failed") ? -1 : v);
                Object y = view("fas", "getCurrentSyndication", t);
                syn.put(t, y == null ? List.of("none") : y.equals("failed") ? List.of("failed")
                    : List.of("is", hex(get(y, "_id")), hex(get(y, "_tokenAmount")), hex(get(y, "_totalDeposited")), blocks(Main.<String>get(y, "_startTime")), blocks(Main.<String>get(y, "_endTime"))));
            }
            return Json.ev("icx", icx, "have", have, "bal", bal, "ref", ref, "dep", dep, "av", av, "syn", syn, "toks", toks, "dur", blocks((BigInteger) view("fas", "getDurationTime")));
        }
    }
    static void run(Object scn, long seed, List<Object> trace) {
        World w = new World();
        Chain c = w.c;
        Address fas = addr("fas"), own = addr("own");
        for (Object o : Main.<List<?>>get(scn, "ops")) {
            String op = get(o, "op"), tok = get(o, "tok");
            c.takeEvents();
            w.hook = null;
            w.arm = get(o, "arm");
            Address by = get(o, "by") == null ? own : addr(get(o, "by"));
            Chain.Result r = new Chain.Result();
            switch (op) {
                case "irc2": r = c.transact(by, Z, fas, "registerIRC2", tok, addr(get(o, "at"))); break;
                case "irc31": r = c.transact(by, Z, fas, "registerIRC31", tok, addr(get(o, "at")), big(get(o, "id")), BigInteger.TWO); break;
                case "duration": r = c.transact(by, Z, fas, "setDurationTime", big(get(o, "v")).multiply(BLOCK)); break;
                case "deposit": r = c.transact(by, big(get(o, "v")), fas, "deposit", tok); break;
                case "claim": r = c.transact(by, Z, fas, "claim", tok); break;
                case "withdrawal": r = c.transact(by, Z, fas, "withdrawal"); break;
                case "pay": r = c.transact(by, big(get(o, "v")), fas, null); break;
                case "fees": r = c.transact(own, Z, addr(w.contract(tok)), "mint", fas, BigInteger.valueOf(IDS.get(tok)), big(get(o, "v"))); break;
                case "price": w.price.put(tok, big(get(o, "v"))); break;
                case "down": if (Main.<Boolean>get(o, "on")) w.down.add(get(o, "what")); else w.down.remove(Main.<String>get(o, "what")); break;
                case "wait": c.height += num(o, "v"); break;
            }
            boolean ok = r.code == -1;
            String hook = ok && w.hook != null ? w.hook : "none";
            w.arm = null;
            List<Object> ev = new ArrayList<>();
            for (Chain.Event e : c.takeEvents()) if (e.name.equals("e")) ev.add(e.args[0]);
            trace.add(Json.ev("o", o, "ok", ok, "code", r.code, "ev", ev, "hook", hook, "obs", w.obs()));
        }
    }
    public static void main(String[] a) throws Exception { Driver.main(a, Main::run); }
}
