import com.iconloop.score.token.irc31.IRC31Receiver;
import foundation.icon.btp.nativecoin.*;
import foundation.icon.btp.nativecoin.irc31.OwnerBasedIRC31Supplier;
import score.Address;
import score.ByteArrayObjectWriter;
import score.Context;
import score.ObjectReader;
import score.annotation.External;
import score.annotation.Payable;
import vm.Chain;
import vm.Crypto;
import vm.Driver;
import vm.Json;
import java.math.BigInteger;
import java.util.*;

/** Native coin services and their tokens on two networks, with stand-ins for the BMCs. */
public class Main {
    static final String[] NETS = {"A", "B"}, ACCTS = {"u1", "u2", "k1"}, ALL = {"u1", "u2", "k1", "ncs"}, COINS = {"NA", "NB", "T"};
    static final String[] NAMES = {"own", "u1", "u2", "k1", "ncs", "bmc", "irc31"};
    static final Set<String> CX = Set.of("k1", "ncs", "bmc", "irc31");
    static final BigInteger Z = BigInteger.ZERO;
    static Address addr(String name) {
        byte[] r = new byte[21];
        System.arraycopy(Crypto.hash("sha3-256", name.getBytes()), 0, r, 1, 20);
        r[0] = (byte) (CX.contains(name) ? 1 : 0);
        return new Address(r);
    }
    static String text(String name) { return name.equals("text") ? "some text" : name.isEmpty() ? "" : addr(name).toString(); }
    static String name(String text) {
        for (String n : NAMES) if (addr(n).toString().equals(text)) return n;
        return text.equals("some text") ? "text" : "?" + text;
    }
    static BigInteger id(String coin) { return new BigInteger(Crypto.hash("sha3-256", coin.getBytes())); }
    static List<Object> btp(String s) {
        if (!s.startsWith("btp://") || s.indexOf('/', 6) < 0) return List.of("?", s);
        int i = s.indexOf('/', 6);
        return List.of(s.substring(6, i), name(s.substring(i + 1)));
    }
    @SuppressWarnings("unchecked") static <T> T get(Object o, String k) { return (T) ((Map<String, Object>) o).get(k); }
    static int num(Object o, String k) { return ((Number) get(o, k)).intValue(); }
    static BigInteger big(Object v) { return BigInteger.valueOf(((Number) v).longValue()); }
    static List<Object> detail(AssetTransferDetail d) { return List.of(d.getCoinName(), d.getAmount(), d.getFee()); }

    /** The contract with its event logs recorded. */
    public static class Ncs extends NativeCoinService {
        public Ncs(String n) { super(addr("bmc"), addr("irc31"), "N" + n); }
        @Override public void TransferStart(Address f, String t, BigInteger s, byte[] d) {
            List<Object> l = new ArrayList<>();
            ObjectReader r = Context.newByteArrayObjectReader("RLPn", d);
            r.beginList();
            while (r.hasNext()) l.add(detail(r.read(AssetTransferDetail.class)));
            r.end();
            Chain.emit("e", List.of("TransferStart", name(f.toString()), btp(t), s, l));
        }
        @Override public void TransferEnd(Address f, BigInteger s, BigInteger c, byte[] m) { Chain.emit("e", List.of("TransferEnd", name(f.toString()), s, c)); }
        @Override public void UnknownResponse(String f, BigInteger s) { Chain.emit("e", List.of("UnknownResponse", f, s)); }
    }
    static class Msg { String src, dst; BigInteger sn; byte[] bytes; Object rec; }
    /** rec says what a message says: read here, not by the contract's classes. */
    static Object rec(Msg m, BigInteger value) {
        ObjectReader r = Context.newByteArrayObjectReader("RLPn", m.bytes);
        r.beginList();
        int t = r.readInt();
        byte[] b = r.readNullable(byte[].class);
        boolean more = r.hasNext();
        r.end();
        ObjectReader q = Context.newByteArrayObjectReader("RLPn", b);
        q.beginList();
        Map<String, Object> e;
        if (t == 0) {
            String from = q.readString(), to = q.readString();
            List<Object> as = new ArrayList<>();
            q.beginList();
            while (q.hasNext()) {
                q.beginList();
                as.add(List.of(q.readString(), q.readBigInteger()));
                more |= q.hasNext();
                q.end();
            }
            q.end();
            e = Json.ev("t", "req", "src", m.src, "dst", m.dst, "sn", m.sn, "from", name(from), "to", name(to), "assets", as, "code", 0);
        } else {
            BigInteger code = q.readBigInteger();
            q.readNullable(String.class);
            e = Json.ev("t", t == 2 ? "res" : t == 3 ? "unk" : "?" + t, "src", m.src, "dst", m.dst, "sn", m.sn, "from", "", "to", "", "assets", List.of(), "code", code);
        }
        if (more || q.hasNext() || value.signum() != 0) e.put("t", "? " + value);
        return e;
    }
    static byte[] wrap(int type, byte[] data) {
        ByteArrayObjectWriter w = Context.newByteArrayObjectWriter("RLPn");
        w.beginList(2);
        w.write(type);
        w.write(data);
        w.end();
        return w.toByteArray();
    }
    static byte[] response(int type, int code) {
        ByteArrayObjectWriter w = Context.newByteArrayObjectWriter("RLPn");
        w.beginList(2);
        w.write(BigInteger.valueOf(code));
        w.write("refused");
        w.end();
        return wrap(type, w.toByteArray());
    }
    static byte[] request(String to, List<?> assets) {
        ByteArrayObjectWriter w = Context.newByteArrayObjectWriter("RLPn");
        w.beginList(3);
        w.write("someone");
        w.write(text(to));
        w.beginList(assets.size());
        for (Object a : assets) {
            w.beginList(2);
            w.write((String) ((List<?>) a).get(0));
            w.write(big(((List<?>) a).get(1)));
            w.end();
        }
        w.end();
        w.end();
        return wrap(0, w.toByteArray());
    }

    /** Takes messages for other networks and keeps them for the driver. */
    public static class Bmc {
        final World w; final String net; boolean down;
        Bmc(World w, String net) { this.w = w; this.net = net; }
        @External(readonly = true) public String getBtpAddress() { return "btp://" + net + "/" + Context.getAddress(); }
        @Payable @External public BigInteger sendMessage(String _to, String _svc, BigInteger _sn, byte[] _msg) {
            if (_to.equals(net) || !(_to.equals("A") || _to.equals("B") || _to.equals("C"))) Context.revert(24, "unreachable");
            if (down || !_svc.equals("nativecoin") || !Context.getCaller().equals(addr("ncs"))) Context.revert(5, "refused");
            Msg m = new Msg();
            m.src = net; m.dst = _to; m.sn = _sn; m.bytes = _msg;
            m.rec = rec(m, Context.getValue());
            w.sent.add(m);
            return BigInteger.ONE;
        }
    }
    /** A contract that has coins and does something when it is paid. */
    public static class Holder implements IRC31Receiver {
        final World w;
        Holder(World w) { this.w = w; }
        void paid() {
            if (w.arm == null || w.hook != null || w.arm.equals("none")) return;
            if (w.arm.equals("rev")) Context.revert(1, "no thanks");
            w.hook = "";
            try { Context.call(addr("ncs"), "reclaim", w.armCoin, w.armV); w.hook = "ok"; }
            catch (RuntimeException e) { w.hook = "fail"; }
        }
        @Payable public void fallback() { paid(); }
        @External public void onIRC31Received(Address o, Address f, BigInteger i, BigInteger v, byte[] d) { paid(); }
        @External public void onIRC31BatchReceived(Address o, Address f, BigInteger[] i, BigInteger[] v, byte[] d) { paid(); }
    }
    static class World {
        Map<String, Chain> ch = new HashMap<>();
        Map<String, Bmc> bmc = new HashMap<>();
        Map<String, Integer> sns = new HashMap<>();
        List<Msg> sent = new ArrayList<>(), pool = new ArrayList<>();
        String arm, armCoin, hook; BigInteger armV;
        World() {
            for (String n : NETS) {
                Chain c = new Chain(n);
                Bmc b = new Bmc(this, n);
                ch.put(n, c); bmc.put(n, b); sns.put(n, 0);
                c.deploy(addr("bmc"), addr("own"), () -> b);
                c.deploy(addr("irc31"), addr("own"), OwnerBasedIRC31Supplier::new);
                c.deploy(addr("ncs"), addr("own"), () -> new Ncs(n));
                c.deploy(addr("k1"), addr("own"), () -> new Holder(this));
                c.transact(addr("own"), Z, addr("irc31"), "addOwner", addr("ncs"));
                // the settings are stored from here on: the default value is a static object
                c.transact(addr("own"), Z, addr("ncs"), "setFeeRatio", BigInteger.TEN);
                for (String a : ACCTS) c.mint(addr(a), BigInteger.valueOf(100000));
            }
        }
        Object view(String n, String who, String m, Object... a) {
            Chain.Result r = ch.get(n).transact(addr("u1"), Z, addr(who), m, a);
            return r.code == -1 ? r.value : "failed";
        }
        Object obs(String n) {
            Chain c = ch.get(n);
            Map<String, Object> nat = new TreeMap<>(), tok = new TreeMap<>(), sup = new TreeMap<>(), lock = new TreeMap<>(), ref = new TreeMap<>(), fee = new TreeMap<>(), ids = new TreeMap<>();
            for (String a : ALL) nat.put(a, c.balance(addr(a)));
            Map<String, Balance[]> batch = new HashMap<>();
            for (String a : ALL) batch.put(a, (Balance[]) view(n, "ncs", "balanceOfBatch", addr(a), COINS));
            for (int i = 0; i < COINS.length; i++) {
                String coin = COINS[i];
                Map<String, Object> t = new TreeMap<>(), l = new TreeMap<>(), r = new TreeMap<>();
                for (String a : ALL) {
                    t.put(a, view(n, "irc31", "balanceOf", addr(a), id(coin)));
                    Balance b = (Balance) view(n, "ncs", "balanceOf", addr(a), coin);
                    boolean same = b.toString().equals(batch.get(a)[i].toString());
                    if (a.equals("ncs")) fee.put(coin, same && b.getLocked().signum() == 0 ? b.getRefundable() : "? " + b);
                    else { l.put(a, same ? b.getLocked() : "? " + batch.get(a)[i]); r.put(a, b.getRefundable()); }
                }
                tok.put(coin, t); lock.put(coin, l); ref.put(coin, r);
                Object s = view(n, "irc31", "totalSupply", id(coin));
                sup.put(coin, s.equals("failed") ? 0 : s);
                Object x = view(n, "ncs", "coinId", coin);
                StringBuilder hex = new StringBuilder();
                for (byte v : Crypto.hash("sha3-256", coin.getBytes())) hex.append(String.format("%02x", v));
                ids.put(coin, x == null ? "none" : x.equals(hex.toString()) ? "hash" : x.equals("0".repeat(64)) ? "native" : "?" + x);
            }
            List<Object> owners = new ArrayList<>(), tx = new ArrayList<>();
            for (Address a : (Address[]) view(n, "ncs", "getOwners")) owners.add((Boolean) view(n, "ncs", "isOwner", a) ? name(a.toString()) : "?");
            for (int s = 0; s <= sns.get(n) + 1; s++) {
                Object o = view(n, "ncs", "getTransaction", BigInteger.valueOf(s));
                if (o == null) continue;
                TransferTransaction t = (TransferTransaction) o;
                List<Object> as = new ArrayList<>();
                for (AssetTransferDetail d : t.getAssets()) as.add(detail(d));
                tx.add(List.of(s, name(t.getFrom()), btp(t.getTo()), as));
            }
            return Json.ev("nat", nat, "tok", tok, "sup", sup, "lock", lock, "ref", ref, "fee", fee, "ratio", view(n, "ncs", "feeRatio"),
                "names", Arrays.asList((Object[]) view(n, "ncs", "coinNames")), "owners", owners, "ids", ids, "tx", tx);
        }
    }

    static void run(Object scn, long seed, List<Object> trace) {
        World w = new World();
        for (Object o : Main.<List<?>>get(scn, "ops")) {
            String op = get(o, "op"), n = get(o, "n");
            Chain c = w.ch.get(n);
            w.sent.clear(); c.takeEvents();
            w.hook = null; w.arm = null;
            Object arm = get(o, "arm");
            if (arm != null) { w.arm = get(arm, "a"); w.armCoin = get(arm, "coin"); w.armV = big(get(arm, "v")); }
            Address ncs = addr("ncs"), bmc = addr("bmc");
            Chain.Result r = new Chain.Result();
            Address by = get(o, "by") == null ? null : addr(get(o, "by"));
            String to = get(o, "net") == null ? null : "btp://" + get(o, "net") + "/" + text(get(o, "to"));
            int i = get(o, "i") == null ? -1 : num(o, "i") - 1;
            switch (op) {
                case "nat": r = c.transact(by, big(get(o, "v")), ncs, "transferNativeCoin", to); break;
                case "tok": r = c.transact(by, Z, ncs, "transfer", Main.<List<?>>get(o, "coins").get(0), big(get(o, "v")), to); break;
                case "batch": {
                    List<?> cs = get(o, "coins"), vs = get(o, "vs");
                    r = c.transact(by, big(get(o, "v")), ncs, "transferBatch", cs.toArray(new String[0]), vs.stream().map(Main::big).toArray(BigInteger[]::new), to);
                    break;
                }
                case "reclaim": r = c.transact(by, Z, ncs, "reclaim", get(o, "coin"), big(get(o, "v"))); break;
                case "deliver": {
                    Msg m = w.pool.get(i);
                    String how = get(o, "how");
                    byte[] b = how.equals("cut") ? Arrays.copyOf(m.bytes, m.bytes.length - 1) : m.bytes;
                    r = c.transact(how.equals("notbmc") ? addr("u1") : bmc, Z, ncs, "handleBTPMessage", m.src, "nativecoin", m.sn, b);
                    if (r.code == -1) w.pool.remove(i);
                    break;
                }
                case "error": {
                    Msg m = w.pool.get(i);
                    r = c.transact(get(o, "how").equals("notbmc") ? addr("u1") : bmc, Z, ncs, "handleBTPError", "btp://" + m.dst + "/bmc", "nativecoin", m.sn, 26L, "error");
                    if (r.code == -1) w.pool.remove(i);
                    break;
                }
                case "reject": {
                    Msg m = w.pool.remove(i), a = new Msg();
                    a.src = m.dst; a.dst = m.src; a.sn = m.sn; a.bytes = response(2, num(o, "code"));
                    w.pool.add(a);
                    break;
                }
                case "foreign": {
                    String t = get(o, "t");
                    byte[] b = t.equals("req") ? request(get(o, "to"), get(o, "assets")) : response(t.equals("unk") ? 3 : t.equals("type1") ? 1 : 4, 0);
                    r = c.transact(bmc, Z, ncs, "handleBTPMessage", "C", "nativecoin", BigInteger.valueOf(num(o, "sn")), b);
                    break;
                }
                case "register": r = c.transact(by, Z, ncs, "register", Main.<String>get(o, "coin")); break;
                case "ratio": r = c.transact(by, Z, ncs, "setFeeRatio", big(get(o, "v"))); break;
                case "addOwner": case "removeOwner": r = c.transact(by, Z, ncs, op, addr(get(o, "who"))); break;
                case "supply": {
                    boolean many = get(o, "batch");
                    BigInteger coin = id(get(o, "coin")), v = big(get(o, "v"));
                    if (many) r = c.transact(by, Z, addr("irc31"), get(o, "m") + "Batch", addr(get(o, "who")), new BigInteger[]{coin}, new BigInteger[]{v});
                    else r = c.transact(by, Z, addr("irc31"), get(o, "m"), addr(get(o, "who")), coin, v);
                    break;
                }
                case "approve": r = c.transact(by, Z, addr("irc31"), "setApprovalForAll", ncs, Main.<Boolean>get(o, "v")); break;
                case "grant":
                    if (!w.view(n, "irc31", "isOwner", ncs).equals(get(o, "v")))
                        r = c.transact(addr("own"), Z, addr("irc31"), Main.<Boolean>get(o, "v") ? "addOwner" : "removeOwner", ncs);
                    break;
                case "down": w.bmc.get(n).down = get(o, "v"); break;
                case "update": c.deploy(ncs, addr("own"), () -> new Ncs(n)); break;
            }
            boolean ok = r.code == -1;
            String hook = ok && w.hook != null ? w.hook : "none";
            w.arm = null;
            List<Object> ev = new ArrayList<>(), sent = new ArrayList<>();
            for (Chain.Event e : c.takeEvents()) if (e.name.equals("e")) ev.add(e.args[0]);
            if (ok) for (Msg m : w.sent) {
                if (!m.dst.equals("C")) w.pool.add(m);
                sent.add(m.rec);
                if (((Map<?, ?>) m.rec).get("t").equals("req")) w.sns.merge(n, 1, Integer::sum);
            }
            trace.add(Json.ev("o", o, "ok", ok, "ev", ev, "sent", sent, "hook", hook, "obs", w.obs(n)));
        }
    }
    public static void main(String[] a) throws Exception { Driver.main(a, Main::run); }
}
