import foundation.icon.btp.bmc.BTPMessageCenter;
import foundation.icon.btp.lib.BMCStatus;
import foundation.icon.btp.lib.BMV;
import foundation.icon.btp.lib.BMVStatus;
import foundation.icon.btp.lib.BSH;
import score.Address;
import score.Context;
import score.annotation.External;
import score.annotation.Payable;
import vm.Chain;
import vm.Crypto;
import vm.Driver;
import vm.Json;
import vm.Rlp;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** Several linked BMCs with stand-ins for verifiers, services and the chain; calls in, records out. */
public class Main {
    static final String[] NETS = {"A", "B", "C", "D"};
    static final String[] USERS = {"u0", "u1", "u2", "u3"};

    static Address addr(String kind, String name) {
        byte[] h = Crypto.hash("sha3-256", name.getBytes());
        byte[] r = new byte[21];
        System.arraycopy(h, 0, r, 1, 20);
        r[0] = (byte) (kind.equals("cx") ? 1 : 0);
        return new Address(r);
    }

    /** The contract with its event logs recorded. */
    public static class Bmc extends BTPMessageCenter {
        public Bmc(String net) { super(net); }
        @Override public void Message(String a, BigInteger b, byte[] c) { Chain.emit("Message", a, b, c); }
        @Override public void BTPEvent(String a, BigInteger b, String c, String d) { Chain.emit("BTPEvent", a, b, c, d); }
        @Override public void MessageDropped(String a, BigInteger b, byte[] c, long d, String e) { Chain.emit("MessageDropped", a, b, c, d, e); }
        @Override public void ClaimReward(Address a, String b, String c, BigInteger d, BigInteger e) { Chain.emit("ClaimReward", a, b, c, d, e); }
        @Override public void ClaimRewardResult(Address a, String b, BigInteger c, BigInteger d) { Chain.emit("ClaimRewardResult", a, b, c, d); }
    }

    /** Accepts what the driver has announced, at the sequence the driver says. */
    public static class Verifier implements BMV {
        final World w; final String ch;
        Verifier(World w, String ch) { this.w = w; this.ch = ch; }
        @External public byte[][] handleRelayMessage(String _bmc, String _prev, BigInteger _seq, byte[] _msg) {
            Relay r = w.known.get(hex(_msg));
            if (r == null || !_bmc.equals(w.link(ch)) || !_prev.equals(w.link(r.link))) Context.revert(25, "unknown message");
            if (r.vcode >= 0) Context.revert(r.vcode, "refused");
            if (!r.any && r.bytes.length > 0 && r.seq != _seq.longValue() + 1) Context.revert(25, "sequence");
            return r.bytes;
        }
        @External(readonly = true) public BMVStatus getStatus() { return new BMVStatus(); }
    }
    static class Relay { String link; byte[][] bytes; List<Object> ms; long seq; boolean any, junk; int vcode; byte[] id; int g; }

    public static class Service implements BSH {
        final World w; final String ch;
        Service(World w, String ch) { this.w = w; this.ch = ch; }
        @External public void handleBTPMessage(String _from, String _svc, BigInteger _sn, byte[] _msg) {
            Map<String, Object> p = w.payload(_svc, _msg, _sn);
            w.calls.add(Json.ev("svc", _svc, "fn", "msg", "src", w.net(_from), "sn", _sn, "p", p, "code", 0));
            int a = ((Number) p.get("a")).intValue();
            String r = (String) p.get("r");
            Address bmc = Context.getCaller();
            if (r.equals("rev")) Context.revert(a, "service says no");
            if (r.equals("throw")) throw new IllegalStateException("service fails");
            if (r.startsWith("reply") && _sn.signum() > 0) {
                try { Context.call(bmc, "sendMessage", _from, _svc, _sn.negate(), replyP(a)); }
                catch (score.RevertedException e) { Context.revert(7, "cannot reply"); }
                if (r.equals("replyrev")) Context.revert(a, "after the reply");
                if (r.equals("reply2")) {
                    boolean refused = false;
                    try { Context.call(bmc, "sendMessage", _from, _svc, _sn.negate(), replyP(a)); }
                    catch (score.RevertedException e) { refused = true; }
                    if (!refused) w.calls.add(Json.ev("svc", _svc, "fn", "second reply accepted"));
                }
            }
            if (r.equals("send")) {
                try { Context.call(bmc, "sendMessage", w.netName((String) ((List<?>) p.get("l")).get(0)), _svc, BigInteger.ZERO, replyP(a)); }
                catch (score.RevertedException e) { Context.revert(7, "cannot send"); }
            }
        }
        @External public void handleBTPError(String _src, String _svc, BigInteger _sn, long _code, String _msg) {
            w.calls.add(Json.ev("svc", _svc, "fn", "err", "src", w.net(_src), "sn", _sn, "p", P("", List.of(), 0, ""), "code", _code));
            if (w.errfail.contains(ch)) Context.revert(3, "service does not take the error");
        }
    }
    static byte[] replyP(int a) { return text(P("x", List.of(), a == 1 ? 5 : 0, a == 1 ? "rev" : "ok")); }

    public static class ChainScore {
        final World w; final String ch;
        ChainScore(World w, String ch) { this.w = w; this.ch = ch; }
        @External public void sendBTPMessage(BigInteger networkId, byte[] message) {
            if (w.csfail.contains(ch)) Context.revert(1, "closed network");
            Chain.emit("cs", networkId, message);
        }
    }

    static String hex(byte[] b) { StringBuilder s = new StringBuilder(); for (byte x : b) s.append(String.format("%02x", x)); return s.toString(); }
    static Map<String, Object> P(String t, List<?> l, Object a, String r) { return Json.ev("t", t, "l", l, "a", a, "r", r); }
    static byte[] text(Map<String, Object> p) {
        return (p.get("r") + "|" + p.get("a") + "|" + String.join(",", ((List<?>) p.get("l")).toArray(new String[0]))).getBytes();
    }
    static final Map<String, Object> NOFEE = Json.ev("net", "", "v", List.of());

    static class World {
        final Map<String, Chain> chains = new HashMap<>();
        final Map<String, Address> bmcs = new HashMap<>();
        final Map<String, Relay> known = new HashMap<>();
        final Map<String, Relay> cur = new HashMap<>();
        final Map<String, List<byte[]>> q = new HashMap<>();      // from>to
        final Map<String, String> nids = new HashMap<>();         // chain#nid -> link
        final Set<String> csfail = new HashSet<>(), errfail = new HashSet<>();
        List<Object> calls = new ArrayList<>();
        int serial;

        String netName(String n) { return "0x" + Integer.toHexString(n.charAt(0)) + (n.equals("B") ? ".bsc" : ".icon"); }
        String net(String s) { for (String n : NETS) if (netName(n).equals(s)) return n; return s == null || s.isEmpty() ? "" : "?" + s; }
        String link(String l) {
            if (l.equals("bad")) return "nonsense";
            String n = l.substring(0, 1);
            return "btp://" + netName(n) + "/" + (l.length() > 1 ? addr("cx", "other bmc") : bmcs.getOrDefault(n, addr("cx", "bmc of D")));
        }
        String unlink(String s) {
            if (s == null || s.isEmpty()) return "";
            for (String n : NETS) { if (link(n).equals(s)) return n; if (link(n + "2").equals(s)) return n + "2"; }
            return "?" + s;
        }
        Address who(String ch, String w) {
            if (w.equals("bmc")) return bmcs.get(ch);
            return w.startsWith("u") ? addr("hx", w) : addr("cx", w + ch);
        }
        String unwho(String ch, Address a) {
            if (a == null) return "";
            for (String u : USERS) if (who(ch, u).equals(a)) return u;
            for (String u : new String[]{"p1", "p2", "v1", "bmc"}) if (who(ch, u).equals(a)) return u;
            return "?" + a;
        }
        String unwho(String s) {
            for (String u : USERS) if (who("A", u).toString().equals(s)) return u;
            return "bad";
        }
        World() {
            for (String c : new String[]{"A", "B", "C"}) {
                Chain k = new Chain(c);
                chains.put(c, k);
                bmcs.put(c, addr("cx", "bmc" + c));
            }
            for (String c : chains.keySet()) {
                Chain k = chains.get(c);
                k.deploy(bmcs.get(c), who(c, "u0"), () -> new Bmc(netName(c)));
                k.deploy(who(c, "v1"), who(c, "u0"), () -> new Verifier(this, c));
                k.deploy(who(c, "p1"), who(c, "u0"), () -> new Service(this, c));
                k.deploy(who(c, "p2"), who(c, "u0"), () -> new Service(this, c));
                k.deploy(Address.fromString("cx0000000000000000000000000000000000000000"), who(c, "u0"), () -> new ChainScore(this, c));
                for (String u : new String[]{"u0", "u1", "u2", "u3", "p1", "p2"}) k.mint(who(c, u), BigInteger.valueOf(1000000));
            }
        }

        /** messages from and to their encoding, without the help of the contract */
        Map<String, Object> payload(String svc, byte[] b, BigInteger sn) {
            if (b.length == 0) return P("x", List.of(), 0, "");
            try {
                if (sn.signum() < 0) {
                    Rlp.Reader r = new Rlp.Reader(b);
                    r.beginList();
                    long code = r.readLong();
                    r.readNullable(String.class);
                    if (r.hasNext()) return P("?", List.of(), 0, "");
                    return P("err", List.of(), code, "");
                }
                if (svc.equals("bmc")) {
                    Rlp.Reader r = new Rlp.Reader(b);
                    r.beginList();
                    String t = r.readString();
                    Rlp.Reader x = new Rlp.Reader(r.readByteArray());
                    x.beginList();
                    switch (t) {
                        case "Init": {
                            List<String> l = new ArrayList<>();
                            x.beginList();
                            while (x.hasNext()) l.add(unlink(x.readString()));
                            return P(t, l, 0, "");
                        }
                        case "Link": case "Unlink": return P(t, List.of(unlink(x.readString())), 0, "");
                        case "Claim": { BigInteger a = x.readBigInteger(); return P(t, List.of(), a, unwho(x.readString())); }
                        case "Response": return P(t, List.of(), x.readBigInteger(), "");
                        default: return P(t, List.of(), 0, "");
                    }
                }
                String[] f = new String(b).split("\\|", -1);
                return P("x", f[2].isEmpty() ? List.of() : Arrays.asList(f[2].split(",")), Integer.parseInt(f[1]), f[0]);
            } catch (RuntimeException e) {
                return P("junk", List.of(), 0, "");
            }
        }
        Map<String, Object> msg(byte[] b) {
            try {
                Rlp.Reader r = new Rlp.Reader(b);
                r.beginList();
                String src = r.readString(), dst = r.readString(), svc = r.readString();
                BigInteger sn = r.readBigInteger();
                byte[] p = r.readByteArray();
                BigInteger nsn = r.readBigInteger();
                Map<String, Object> fee = NOFEE;
                if (r.beginNullableList()) {
                    String n = r.readString();
                    List<Object> v = new ArrayList<>();
                    r.beginList();
                    while (r.hasNext()) v.add(r.readBigInteger());
                    r.end();
                    r.end();
                    fee = Json.ev("net", net(n), "v", v);
                }
                return Json.ev("src", net(src), "dst", net(dst), "svc", svc, "sn", sn, "p", payload(svc, p, sn), "nsn", nsn, "fee", fee);
            } catch (RuntimeException e) {
                return Json.ev("raw", hex(b));
            }
        }
        @SuppressWarnings("unchecked")
        byte[] enc(Map<String, Object> m) {
            Map<String, Object> p = (Map<String, Object>) m.get("p"), f = (Map<String, Object>) m.get("fee");
            String svc = (String) m.get("svc");
            Rlp.Writer w = new Rlp.Writer();
            w.beginList(7);
            w.write(netName((String) m.get("src")));
            w.write(netName((String) m.get("dst")));
            w.write(svc);
            w.write(num(m.get("sn")));
            w.write(encP(svc, p));
            w.write(num(m.get("nsn")));
            if (f.get("net").equals("")) w.writeNull();
            else {
                w.beginList(2);
                w.write(netName((String) f.get("net")));
                List<?> v = (List<?>) f.get("v");
                w.beginList(v.size());
                for (Object x : v) w.write(num(x));
                w.end();
                w.end();
            }
            w.end();
            return w.toByteArray();
        }
        byte[] encP(String svc, Map<String, Object> p) {
            String t = (String) p.get("t");
            if (t.equals("x")) return text(p);
            if (t.equals("junk")) return "not a list".getBytes();
            List<?> l = (List<?>) p.get("l");
            Rlp.Writer x = new Rlp.Writer();
            if (t.equals("Init")) {
                x.beginList(1); x.beginList(l.size());
                for (Object o : l) x.write(link((String) o));
                x.end(); x.end();
            } else if (t.equals("Link") || t.equals("Unlink")) {
                x.beginList(1); x.write(link((String) l.get(0))); x.end();
            } else if (t.equals("Claim")) {
                x.beginList(2); x.write(num(p.get("a"))); x.write(rcv((String) p.get("r"))); x.end();
            } else {
                x.beginList(2); x.write(num(p.get("a"))); x.write("text"); x.end();
            }
            if (t.equals("err")) return x.toByteArray();
            Rlp.Writer w = new Rlp.Writer();
            w.beginList(2); w.write(t); w.write(x.toByteArray()); w.end();
            return w.toByteArray();
        }
        String rcv(String u) { return u.equals("bad") ? "hxnobody" : who("A", u).toString(); }

        long rx(String ch, String l) {
            Chain.Result r = chains.get(ch).transact(who(ch, "u0"), BigInteger.ZERO, bmcs.get(ch), "getStatus", link(l));
            if (r.code != -1) return rxs.getOrDefault(ch + l, 0L);
            return ((BMCStatus) r.value).getRx_seq().longValue();
        }
        final Map<String, Long> rxs = new HashMap<>();     // as last shown, for links without verifier

        /** the relay message of an operation, known to the verifier from now on */
        @SuppressWarnings("unchecked")
        Relay relay(Map<String, Object> o, String ch, String l) {
            Relay r = new Relay();
            r.link = l;
            r.vcode = num(o.get("vcode")).intValue();
            r.junk = (Boolean) o.get("junk");
            List<?> inj = (List<?>) o.get("inj");
            List<byte[]> b = new ArrayList<>();
            if (!inj.isEmpty()) {
                r.any = true;
                for (Object m : inj) b.add(enc((Map<String, Object>) m));
            } else if (!l.equals("bad")) {
                List<byte[]> x = q.getOrDefault(l.substring(0, 1) + ">" + ch, List.of());
                boolean is = linksOf(ch).contains(l);
                r.seq = (is ? rx(ch, l) : 0) + 1 + num(o.get("off")).longValue();
                for (long i = r.seq; r.seq >= 1 && i < r.seq + num(o.get("n")).longValue() && i <= x.size(); i++) b.add(x.get((int) i - 1));
            } else r.seq = 1 + num(o.get("off")).longValue();
            r.ms = new ArrayList<>();
            for (byte[] m : b) r.ms.add(msg(m));
            if (r.junk) b.add("junk".getBytes());
            r.bytes = b.toArray(new byte[0][]);
            r.g = ++serial;
            r.id = Crypto.hash("sha3-256", (ch + r.g).getBytes());
            known.put(hex(r.id), r);
            return r;
        }
        List<String> linksOf(String ch) {
            List<String> res = new ArrayList<>();
            Chain.Result r = chains.get(ch).transact(who(ch, "u0"), BigInteger.ZERO, bmcs.get(ch), "getLinks");
            for (String s : (String[]) r.value) res.add(unlink(s));
            return res;
        }
        Object read(String ch, String m, Object... a) {
            Chain.Result r = chains.get(ch).transact(who(ch, "u3"), BigInteger.ZERO, bmcs.get(ch), m, a);
            return r.code == -1 ? r.value : (Object) new Fail(r.code);
        }
        @SuppressWarnings("unchecked")
        Map<String, Object> obs(String ch) {
            List<String> links = linksOf(ch);
            List<Object> st = new ArrayList<>(), relays = new ArrayList<>(), nn = new ArrayList<>(), routes = new ArrayList<>(),
                svcs = new ArrayList<>(), vers = new ArrayList<>(), owners = new ArrayList<>(), rew = new ArrayList<>(), fees = new ArrayList<>(), fee = new ArrayList<>();
            for (String l : links) {
                Object s = read(ch, "getStatus", link(l));
                if (s instanceof Fail) st.add(List.of(-((Fail) s).code, -((Fail) s).code));
                else {
                    st.add(List.of(((BMCStatus) s).getRx_seq(), ((BMCStatus) s).getTx_seq()));
                    rxs.put(ch + l, ((BMCStatus) s).getRx_seq().longValue());
                }
                List<Object> rl = new ArrayList<>();
                for (Address a : (Address[]) read(ch, "getRelays", link(l))) rl.add(unwho(ch, a));
                relays.add(rl);
                Object off = read(ch, "getBTPLinkOffset", link(l));
                nn.add(List.of(read(ch, "getBTPLinkNetworkId", link(l)), off instanceof Fail ? -((Fail) off).code : off));
            }
            for (Map.Entry<?, ?> e : ((Map<?, ?>) read(ch, "getRoutes")).entrySet()) routes.add(List.of(net((String) e.getKey()), net((String) e.getValue())));
            for (Map.Entry<?, ?> e : ((Map<?, ?>) read(ch, "getServices")).entrySet()) svcs.add(List.of(e.getKey(), unwho(ch, (Address) e.getValue())));
            for (Map.Entry<?, ?> e : ((Map<?, ?>) read(ch, "getVerifiers")).entrySet()) vers.add(List.of(net((String) e.getKey()), unwho(ch, (Address) e.getValue())));
            for (Address a : (Address[]) read(ch, "getOwners")) {
                owners.add(unwho(ch, a));
                if (!(Boolean) read(ch, "isOwner", a)) owners.add("not?");
            }
            for (String u : new String[]{"u0", "u1", "u2", "u3", "bmc"})
                for (String n : NETS) {
                    BigInteger v = (BigInteger) read(ch, "getReward", netName(n), who(ch, u));
                    if (v.signum() != 0) rew.add(List.of(u, n, v));
                }
            for (String n : NETS) {
                Object t = read(ch, "getFeeTable", (Object) new String[]{netName(n)});
                if (t instanceof Fail) fees.add(List.of(-((Fail) t).code));
                else fees.add(new ArrayList<Object>(Arrays.asList(((BigInteger[][]) t)[0])));
                Object f = read(ch, "getFee", netName(n), false), g = read(ch, "getFee", netName(n), true);
                fee.add(List.of(f instanceof Fail ? -((Fail) f).code : f, g instanceof Fail ? -((Fail) g).code : g));
            }
            return Json.ev("links", links, "st", st, "relays", relays, "nids", nn, "routes", routes, "svcs", svcs, "vers", vers,
                "owners", owners, "rew", rew, "nsn", read(ch, "getNetworkSn"), "fh", unwho(ch, (Address) read(ch, "getFeeHandler")),
                "bal", chains.get(ch).balance(bmcs.get(ch)), "fees", fees, "fee", fee);
        }

        void run(Map<String, Object> o, List<Object> trace) {
            String ch = (String) o.get("ch"), op = (String) o.get("op");
            Map<String, Object> rec = new LinkedHashMap<>(o);
            rec.remove("ch");
            String l = (String) o.get("link");
            String ln = l == null ? null : link(l), net = o.get("net") == null ? null : netName((String) o.get("net"));
            Address w = o.get("who") == null || o.get("who").equals("bad") ? null : who(ch, (String) o.get("who"));
            BigInteger val = o.get("val") == null ? BigInteger.ZERO : num(o.get("val"));
            String m = op;
            Object[] a = {};
            switch (op) {
                case "addVerifier": a = new Object[]{net, w}; break;
                case "removeVerifier": case "removeRoute": a = new Object[]{net}; break;
                case "addService": a = new Object[]{o.get("svc"), w}; break;
                case "removeService": a = new Object[]{o.get("svc")}; break;
                case "addLink": case "removeLink": a = new Object[]{ln}; break;
                case "addBTPLink": case "setBTPLinkNetworkId": a = new Object[]{ln, num(o.get("nid"))}; break;
                case "addRoute": a = new Object[]{net, netName((String) o.get("via"))}; break;
                case "addRelay": case "removeRelay": a = new Object[]{ln, w}; break;
                case "addOwner": case "removeOwner": case "setFeeHandler": a = new Object[]{w}; break;
                case "setFeeTable": {
                    List<?> d = (List<?>) o.get("dsts"), v = (List<?>) o.get("vals");
                    String[] ds = new String[d.size()];
                    for (int i = 0; i < ds.length; i++) ds[i] = netName((String) d.get(i));
                    BigInteger[][] vs = new BigInteger[v.size()][];
                    for (int i = 0; i < vs.length; i++) vs[i] = nums((List<?>) v.get(i));
                    a = new Object[]{ds, vs};
                    break;
                }
                case "sendMessage": a = new Object[]{net, o.get("svc"), num(o.get("sn")), text(cast(o.get("p")))}; break;
                case "claimReward": a = new Object[]{net, rcv((String) o.get("who"))}; break;
                case "dropMessage": {
                    Map<String, Object> f = cast(o.get("fee"));
                    boolean none = f.get("net").equals("");
                    a = new Object[]{net, num(o.get("seq")), o.get("svc"), num(o.get("sn")), num(o.get("nsn")),
                        none ? "" : netName((String) f.get("net")), nums((List<?>) f.get("v"))};
                    break;
                }
                case "relay": {
                    Relay r = relay(o, ch, l);
                    put(rec, r);
                    m = "handleRelayMessage";
                    a = new Object[]{ln, Base64.getUrlEncoder().encodeToString(r.id)};
                    break;
                }
                case "frag": {
                    int i = num(o.get("i")).intValue(), k = num(o.get("k")).intValue();
                    Relay r = i == 1 ? relay(o, ch, l) : cur.get(ch + l);
                    if (r == null) { r = new Relay(); r.link = l; r.vcode = -1; r.ms = List.of(); r.bytes = new byte[0][]; r.id = new byte[32]; }
                    cur.put(ch + l, r);
                    put(rec, r);
                    int n = r.id.length, from = (i - 1) * n / k, to = i * n / k;
                    m = "handleFragment";
                    a = new Object[]{ln, Base64.getUrlEncoder().encodeToString(Arrays.copyOfRange(r.id, from, to)), num(o.get("idx"))};
                    break;
                }
                case "cs": if ((Boolean) o.get("on")) csfail.add(ch); else csfail.remove(ch); break;
                case "errmode": if ((Boolean) o.get("on")) errfail.add(ch); else errfail.remove(ch); break;
                case "fallback": m = null; break;
                default: throw new IllegalArgumentException(op);
            }
            Chain c = chains.get(ch);
            calls = new ArrayList<>();
            c.takeEvents();
            Chain.Result r = new Chain.Result();
            if (!op.equals("cs") && !op.equals("errmode")) r = c.transact(who(ch, (String) o.get("by")), val, bmcs.get(ch), m, a);
            List<Chain.Event> evs = c.takeEvents();
            if (r.code == -1) {
                if (op.equals("addBTPLink") || op.equals("setBTPLinkNetworkId")) nids.put(ch + "#" + o.get("nid"), l);
                if (op.equals("addLink") || op.equals("addBTPLink") || op.equals("removeLink")) q.put(ch + ">" + l.substring(0, 1), new ArrayList<>());
            }
            List<Object> msgs = new ArrayList<>(), btp = new ArrayList<>(), oth = new ArrayList<>();
            for (Chain.Event e : evs) {
                switch (e.name) {
                    case "Message":
                        msgs.add(Json.ev("nid", 0, "next", unlink((String) e.args[0]), "seq", e.args[1], "m", msg((byte[]) e.args[2])));
                        send(ch, unlink((String) e.args[0]), (byte[]) e.args[2]);
                        break;
                    case "cs":
                        msgs.add(Json.ev("nid", e.args[0], "next", "", "seq", 0, "m", msg((byte[]) e.args[1])));
                        send(ch, nids.getOrDefault(ch + "#" + e.args[0], "D"), (byte[]) e.args[1]);
                        break;
                    case "BTPEvent": btp.add(Json.ev("src", net((String) e.args[0]), "nsn", e.args[1], "next", unlink((String) e.args[2]), "k", e.args[3])); break;
                    case "MessageDropped": oth.add(Json.ev("e", "drop", "prev", unlink((String) e.args[0]), "seq", e.args[1], "m", msg((byte[]) e.args[2]), "code", e.args[3])); break;
                    case "ClaimReward": oth.add(Json.ev("e", "claim", "who", unwho(ch, (Address) e.args[0]), "net", net((String) e.args[1]), "rcv", unwho((String) e.args[2]), "amt", e.args[3], "nsn", e.args[4])); break;
                    case "ClaimRewardResult": oth.add(Json.ev("e", "claimres", "who", unwho(ch, (Address) e.args[0]), "net", net((String) e.args[1]), "nsn", e.args[2], "code", e.args[3])); break;
                    default: oth.add(Json.ev("e", e.name));
                }
            }
            trace.add(Json.ev("ch", ch, "o", rec, "code", r.code, "ret", r.value instanceof BigInteger ? r.value : 0,
                "msgs", msgs, "btp", btp, "oth", oth, "calls", r.code == -1 ? calls : List.of(), "obs", obs(ch)));
        }
        void put(Map<String, Object> rec, Relay r) {
            rec.remove("inj");
            rec.put("ms", r.ms); rec.put("seq", r.seq); rec.put("any", r.any); rec.put("junk", r.junk); rec.put("vcode", r.vcode); rec.put("g", r.g);
        }
        void send(String ch, String l, byte[] m) {
            q.computeIfAbsent(ch + ">" + l.substring(0, 1), x -> new ArrayList<>()).add(m);
        }
    }
    static class Fail { final int code; Fail(int c) { code = c; } }
    static BigInteger num(Object o) { return o instanceof BigInteger ? (BigInteger) o : BigInteger.valueOf(((Number) o).longValue()); }
    static BigInteger[] nums(List<?> l) { BigInteger[] r = new BigInteger[l.size()]; for (int i = 0; i < r.length; i++) r[i] = num(l.get(i)); return r; }
    @SuppressWarnings("unchecked") static Map<String, Object> cast(Object o) { return (Map<String, Object>) o; }

    public static void main(String[] args) throws Exception {
        Driver.main(args, (s, seed, trace) -> {
            World w = new World();
            for (Object o : (List<?>) cast(s).get("ops")) w.run(cast(o), trace);
        });
    }
}
