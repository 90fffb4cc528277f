"""Which legs decide which property."""
import json, os, random
from .core import log, ToolError, VERIF

PROPS = {}


def prop(pid):
    def d(f):
        PROPS[pid] = f
        return f
    return d


@prop("C09")
def mbt(c):
    b = c.go_build("mbt")
    c.check_design("mbt", "MBTDesign", cfg=c.q("MBTDesign.cfg", "MBTDesignDeep.cfg"), timeout=840)
    f = c.generate("mbt", "MBTGen", timeout=300)
    f = c.pick(f, c.q(1500, None))
    c.validate("mbt-forge", "mbt", "MBTTrace", c.drive(b, "forge", f), scenarios=f)
    mx = c.q(24, 48)
    scn = [{"n": n, "base": base, "hash": "icon" if (n + base) % 2 else "eth"}
           for n in range(0, mx + 1) for base in sorted({0, n, n // 2, max(0, n - 1)})]
    c.validate("mbt-tree", "mbt", "MBTTrace", c.drive(b, "tree", scn), scenarios=scn)
    c.validate("mbt-hash", "mbt", "MBTTrace", c.drive(b, "hashes", []))


@prop("C10")
def mta(c):
    b = c.go_build("mta")
    c.check_design("mta", "MTAVerify", cfg=c.q("MTAVerify.cfg", "MTAVerifyDeep.cfg"))
    a = c.pick(c.generate("mta", "MTAAttackGen"), c.q(6000, None))
    c.validate("mta-attack", "mta", "MTATrace", c.drive(b, "attack", a), scenarios=a)
    m = c.q(18, 40)
    x = [{"N1": i, "N2": j} for i in range(1, m) for j in range(1, m)]
    c.validate("mta-cross", "mta", "MTATrace", c.drive(b, "cross", x), scenarios=x)
    # plain growth, every length, data and hash leaves, both accumulator kinds
    h = [[{"op": "add", "kind": "data" if (i * k) % 3 else "hash", "k": 0} for i in range(n)]
         for n in range(1, c.q(20, 36)) for k in (1, 2)]
    c.validate("mta-growth", "mta", "MTATrace", c.drive(b, "history", h), scenarios=h)


@prop("C11")
def mtap(c):
    b = c.go_build("mta")
    c.check_design("mta", "MTADesign", cfg=c.q("MTADesign.cfg", "MTADesignDeep.cfg"))
    h = c.generate("mta", "MTAGen", cfg=c.q("MTAGen.cfg", "MTAGenDeep.cfg"), simulate=c.q(60, 400), depth=24, workers=1)
    h = c.pick(h, c.q(400, 4000))
    c.validate("mta-history", "mta", "MTATrace", c.drive(b, "history", h), scenarios=h)


@prop("C12")
def db(c):
    b = c.go_build("db")
    c.check_design("db", "DBDesign", cfg=c.q("DBDesign.cfg", "DBDesign.cfg"))
    h = c.generate("db", "DBDesign", cfg="DBGen0.cfg", simulate=c.q(80, 800), depth=31, workers=1)
    for be, n in (("mapdb", c.q(80, 500)), ("goleveldb", c.q(80, 400)), ("badgerdb", c.q(40, 200))):
        hh = c.pick(h, n)
        c.validate("db-" + be, "db", "DBTrace", c.drive(b, "run", hh, args=[be, "0"]), scenarios=hh)


@prop("C13")
def layer(c):
    b = c.go_build("db")
    c.check_design("db", "DBDesign", cfg=c.q("DBDesign.cfg", "DBDesign.cfg"))
    h = c.generate("db", "DBDesign", cfg="DBGen.cfg", simulate=c.q(80, 800), depth=31, workers=1)
    for be, n in (("mapdb", c.q(80, 600)), ("goleveldb", c.q(30, 200))):
        hh = c.pick(h, n)
        c.validate("layer-" + be, "db", "DBTrace", c.drive(b, "run", hh, args=[be, "2"]), scenarios=hh)


GOSYNC = {"GODEBUG": "asynctimerchan=0"}


def link(c, aspect):
    b = c.go_build("link")
    c.check_design("link", "LinkDesign", cfg=c.q("LinkDesign.cfg", "LinkDesignDeep.cfg"), timeout=800)
    h = c.generate("link", "LinkGen", simulate=c.q(1500, 12000), depth=60, workers=1)
    c.validate("link", "link", "LinkTrace", c.drive(b, "link", h, env=GOSYNC), scenarios=h, env={"ASPECT": aspect})
    h = c.generate("link", "LinkGen", cfg="LinkGenDeep.cfg", simulate=c.q(300, 6000), depth=60, workers=1)
    c.validate("link-long", "link", "LinkTrace", c.drive(b, "link", h, env=GOSYNC), scenarios=h, env={"ASPECT": aspect})
    if aspect == "C03":
        h = c.generate("link", "LinkGen", cfg="LinkGenFault.cfg", simulate=c.q(500, 4000), depth=40, workers=1)
        h = c.pick(h, c.q(3000, 20000))
        c.validate("link-fault", "link", "LinkTrace", c.drive(b, "link", h, env=GOSYNC), scenarios=h, env={"ASPECT": aspect})


@prop("C01")
def link01(c):
    link(c, "C01")


@prop("C02")
def link02(c):
    link(c, "C02")


@prop("C03")
def link03(c):
    link(c, "C03")


def recv(c, kind):
    b = c.go_build("recv")
    c.check_design("recv", "RecvDesign", cfg=c.q("RecvDesign.cfg", "RecvDesignDeep.cfg"), timeout=800)
    h = c.generate("recv", "RecvGen", cfg="RecvGen-%s.cfg" % kind, simulate=c.q(700, 8000), depth=40, workers=1)
    c.validate("recv-" + kind, "recv", "RecvTrace", c.drive(b, "recv", h), scenarios=h)
    h = c.generate("recv", "RecvGen", cfg="RecvGen-%s-fault.cfg" % kind, simulate=c.q(400, 4000), depth=40, workers=1)
    c.validate("recv-%s-fault" % kind, "recv", "RecvTrace", c.drive(b, "recv", h), scenarios=h)


@prop("C04")
def recv04(c):
    recv(c, "btp2")


@prop("C05")
def recv05(c):
    recv(c, "bridge")


@prop("C06")
def recv06(c):
    recv(c, "ethbr")


def send(c, kind):
    b = c.go_build("send")
    c.check_design("send", "SendDesign", cfg=c.q("SendDesign.cfg", "SendDesignDeep.cfg"), timeout=800)
    h = c.generate("send", "SendGen", cfg="SendGen-%s.cfg" % kind, simulate=c.q(700, 6000), depth=60, workers=1)
    c.validate("send-" + kind, "send", "SendTrace", c.drive(b, "send", h), scenarios=h)


@prop("C07")
def send07(c):
    send(c, "icon")


@prop("C08")
def send08(c):
    send(c, "ethbr")


@prop("C15")
def ints(c):
    b = c.go_build("ints")
    c.check_design("codec", "IntsDesign", cfg=c.q("IntsDesign.cfg", "IntsDesignDeep.cfg"))
    v = c.pick(c.generate("codec", "IntsDesign", cfg=c.q("IntsGen.cfg", "IntsGenDeep.cfg")), c.q(1500, 20000))
    c.validate("int-values", "codec", "IntsTrace", c.drive(b, "run", v), scenarios=v)
    t = c.generate("codec", "TextGen")
    t = [x for x in t if x["k"] < 2] + c.pick([x for x in t if x["k"] == 2], c.q(1200, 25000))
    c.validate("int-texts", "codec", "IntsTrace", c.drive(b, "run", t), scenarios=t)


@prop("C14")
def codec(c):
    b = c.go_build("codec")
    c.check_design("codec", "RLPDesign", cfg=c.q("RLPDesign.cfg", "RLPDesignDeep.cfg"), timeout=800)
    s = c.generate("codec", "RLPGen", cfg="RLPGen1.cfg")
    h = [x for x in s if x["k"] != "struct"]
    h += [{"k": "struct", "f": [x, {"k": "b"}]} for x in h] + c.pick([x for x in s if x["k"] == "struct"], c.q(400, 4000))
    c.validate("codec-shallow", "codec", "RLPTrace", c.drive(b, "run", h, args=["4", str(c.q(20, 60)), "300"]), scenarios=h)
    h = c.pick(c.generate("codec", "RLPGen", simulate=c.q(10, 100), depth=6, workers=1), c.q(800, 8000))
    c.validate("codec-deep", "codec", "RLPTrace", c.drive(b, "run", h, args=["2", str(c.q(12, 30)), "200"]), scenarios=h)
    c.validate("codec-large", "codec", "RLPTrace", c.drive(b, "large", []))


@prop("C16")
def addr(c):
    b = c.go_build("addr")
    c.check_design("addr", "AddrDesign")
    s = c.generate("addr", "AddrDesign", cfg="AddrGen.cfg")
    c.validate("addr-btp", "addr", "AddrTrace", c.drive(b, "btp", s), scenarios=s)
    n = [{} for _ in range(c.q(1500, 12000))]
    c.validate("addr-icon", "addr", "AddrTrace", c.drive(b, "icon", n), scenarios=n)


@prop("C24")
def relay(c):
    b = c.go_build("relay")
    prog = c.go_prog("cmd/relay")
    c.check_design("relay", "RelayDesign")
    c.check_design("relay", "RelayDesign", cfg="RelayBoth.cfg")
    h = c.generate("relay", "RelayGen", simulate=c.q(1, 4), depth=400, workers=1)
    h = c.pick(h, c.q(110, 1200))
    c.validate("relay", "relay", "RelayTrace", c.drive(b, "relay", h, args=[prog]), scenarios=h)
    h = c.generate("relay", "RelayGen", cfg="RelayGenBad.cfg", simulate=c.q(1, 2), depth=400, workers=1)
    h = c.pick([x for x in h if sum(x["bx"]) > 0 and sum(x["by"]) > 0 and   # a transaction is needed
                (x["bad"] != "down" or (x["x"] if x["dir"] != "reverse" else x["y"]) in ("btp2", "bridge"))], c.q(60, 500))
    c.validate("relay-bad", "relay", "RelayTrace", c.drive(b, "relay", h, args=[prog]), scenarios=h)


@prop("C17")
def stores(c):
    b = c.go_build("keys")
    c.check_design("keys", "StoreDesign")
    s = c.generate("keys", "StoreDesign", cfg=c.q("StoreGen.cfg", "StoreGenDeep.cfg"))
    own = c.pick([x for x in s if x["w"] == "own"], c.q(150, 1500))   # these derive keys at full cost
    s = c.pick([x for x in s if x["w"] != "own"], c.q(4000, 30000))
    c.validate("stores", "keys", "StoreTrace", c.drive(b, "store", s), scenarios=s)
    c.validate("stores-own", "keys", "StoreTrace", c.drive(b, "store", own), scenarios=own)


@prop("C18")
def signs(c):
    b = c.go_build("keys")
    c.check_design("keys", "SignDesign", cfg=c.q("SignDesign.cfg", "SignDesignDeep.cfg"))
    s = c.generate("keys", "SignDesign", cfg=c.q("SignGen.cfg", "SignGenDeep.cfg"))
    s = c.pick(s, c.q(1500, 12000))
    c.validate("signatures", "keys", "SignTrace", c.drive(b, "sign", s), scenarios=s)
    n = [{} for _ in range(c.q(200, 3000))]
    c.validate("keys", "keys", "SignTrace", c.drive(b, "keys", n), scenarios=n)


@prop("C22")
def errs(c):
    b = c.go_build("errs")
    c.check_design("errs", "ErrsDesign", cfg=c.q("ErrsDesign.cfg", "ErrsDesignDeep.cfg"))
    s = c.pick(c.generate("errs", "ErrsDesign", cfg=c.q("ErrsGen.cfg", "ErrsGenDeep.cfg")), c.q(6000, 40000))
    c.validate("errors", "errs", "ErrsTrace", c.drive(b, "errs", s), scenarios=s)


@prop("C19")
def monitors(c):
    b = c.go_build("rpc")
    c.check_design("rpc", "MonDesign")
    s = c.generate("rpc", "MonDesign", cfg=c.q("MonGen.cfg", "MonGenDeep.cfg"))
    for k in ("btp", "block", "event"):
        s += [dict(kind=k, feed=[], at=0, mode=m) for m in ("refuse", "bad", "early")]
        s += [dict(kind=k, feed=[], at=i, mode="code") for i in range(3)]
        s += [dict(kind=k, feed=["n"] * n, at=0, mode="close") for n in range(5)]
    s += [dict(kind="btp", feed=[], at=0, mode="storm")] * c.q(24, 200)
    c.validate("monitors", "rpc", "MonTrace", c.drive(b, "mon", s), scenarios=s)


@prop("C20")
def rpc(c):
    b = c.go_build("rpc")
    c.check_design("rpc", "RpcDesign")
    s = c.generate("rpc", "RpcDesign", cfg="RpcGen.cfg")
    s = s * c.q(2, 20)
    c.validate("answers", "rpc", "RpcTrace", c.drive(b, "do", s), scenarios=s)
    n = [{} for _ in range(c.q(150, 2000))]
    c.validate("methods", "rpc", "RpcTrace", c.drive(b, "calls", n), scenarios=n)


@prop("C21")
def conf(c):
    b = c.go_build("conf")
    prog = c.go_prog("cmd/relay")
    c.check_design("conf", "ConfDesign")
    h = c.generate("conf", "ConfGen", simulate=c.q(400, 4000), depth=25, workers=1)
    h = c.pick([x for x in h if len(x) == 3], c.q(168, 2000))
    g = c.generate("conf", "ConfGen", cfg="ConfGenPaths.cfg", simulate=c.q(400, 4000), depth=25, workers=1)
    h += c.pick([x for x in g if len(x) == 3], c.q(112, 2000))
    c.validate("conf", "conf", "ConfTrace", c.drive(b, "do", h, args=[prog]), scenarios=h)


def histories(c, h, n=50):
    """TLC evaluates the last random step more than once: keep one history of each kind."""
    seen = {}
    for x in h:
        seen.setdefault(json.dumps([x.get("c"), x["ops"][:n]]), x)
    return list(seen.values())


def bmc_leg(mode):
    def leg(c):
        b = c.java_build("bmc", ["score-util", "lib", "bmc"])
        if mode in ("flow", "fees"):
            c.check_design("bmc", "BmcDesign", cfg=c.q("BmcDesign.cfg", "BmcDesignDeep.cfg"))
            c.check_design("bmc", "BmcDesign", cfg="BmcDesignWalk.cfg", simulate=c.q(5, 100), depth=40)
        h = histories(c, c.generate("bmc", "BmcGen", simulate=c.q(250, 3000), depth=70,
                                    env={"GENLEN": 45, "GENMODE": mode}, workers=1))
        c.validate("bmc-" + mode, "bmc", "BmcTrace", c.java_drive(b, "bmc", h), scenarios=h)
    return leg


prop("C25")(bmc_leg("flow"))
prop("C26")(bmc_leg("fees"))
prop("C27")(bmc_leg("admin"))
prop("C28")(bmc_leg("frag"))


@prop("C29")
def c29(c):
    b = c.java_build("bmvbtp", ["score-util", "lib", "bmv/btpblock"])
    for i in (1, 2):
        c.check_design("bmv", "BmvBtpDesign", cfg="BmvBtpDesign%d.cfg" % i)
    h = histories(c, c.generate("bmv", "BmvBtpGen", simulate=c.q(600, 8000), depth=40, env={"GENLEN": 14}, workers=1), 12)
    c.validate("bmv-btp", "bmv", "BmvBtpTrace", c.java_drive(b, "bmvbtp", h), scenarios=h)


@prop("C30")
def xcall(c):
    b = c.java_build("xcall", ["score-util", "lib", "xcall"])
    c.check_design("xcall", "XcallDesign", cfg=c.q("XcallDesign.cfg", "XcallDesignDeep.cfg"), timeout=800)
    h = histories(c, c.generate("xcall", "XcallGen", simulate=c.q(500, 6000), depth=80, env={"GENLEN": 60}, workers=1), 50)
    c.validate("xcall", "xcall", "XcallTrace", c.java_drive(b, "xcall", h), scenarios=h)


@prop("C31")
def bridge(c):
    b = c.java_build("bmvbridge", ["score-util", "lib", "bmv/bridge"])
    c.check_design("bmv", "BmvBridgeDesign")
    h = histories(c, c.generate("bmv", "BmvBridgeGen", simulate=c.q(600, 8000), depth=40, env={"GENLEN": 30}, workers=1), 28)
    c.validate("bmv-bridge", "bmv", "BmvBridgeTrace", c.java_drive(b, "bmvbridge", h), scenarios=h)


@prop("C32")
def coin(c):
    b = c.java_build("coin", ["score-util", "lib", "nativecoin"])
    c.check_design("coin", "CoinDesign", cfg=c.q("CoinDesign.cfg", "CoinDesignDeep.cfg"), timeout=800)
    h = histories(c, c.generate("coin", "CoinGen", simulate=c.q(250, 5000), depth=120, env={"GENLEN": 90}, workers=1), 80)
    c.validate("coin", "coin", "CoinTrace", c.java_drive(b, "coin", h), scenarios=h)
    h = json.load(open(os.path.join(VERIF, "spec", "coin", "answer-error.json")))
    c.validate("coin-answer-error", "coin", "CoinTrace", c.java_drive(b, "coin", h), scenarios=h)


@prop("C33")
def bmv_icon(c):
    b = c.java_build("bmvicon", ["score-util", "lib", "bmv/icon"])
    c.check_design("bmv", "BmvIconDesign")
    h = histories(c, c.generate("bmv", "BmvIconGen", simulate=c.q(260, 4000), depth=60, env={"GENLEN": 24}, workers=1), 20)
    c.validate("bmv-icon", "bmv", "BmvIconTrace", c.java_drive(b, "bmvicon", h), scenarios=h)


@prop("C23")
def logs(c):
    b = c.go_build("logs")
    c.check_design("log", "LogDesign")
    h = histories(c, c.generate("log", "LogGen", simulate=c.q(500, 6000), depth=70, env={"GENLEN": 60}, workers=1), 50)
    h += [{"rotate": k} for k in range(1, c.q(13, 80))]
    c.validate("log", "log", "LogTrace", c.drive(b, "logs", h), scenarios=h)


@prop("C34")
def fees(c):
    b = c.java_build("fees", ["fee-aggregation"])
    c.check_design("fees", "FeesDesign", cfg=c.q("FeesDesign.cfg", "FeesDesignDeep.cfg"), timeout=800)
    h = histories(c, c.generate("fees", "FeesGen", simulate=c.q(320, 5000), depth=120, env={"GENLEN": 90}, workers=1), 80)
    c.validate("fees", "fees", "FeesTrace", c.java_drive(b, "fees", h), scenarios=h)
