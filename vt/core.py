"""Common machinery of the checks: build a harness from /repo's working tree,
run TLC on a design specification, replay scenarios on the real code, validate
the recorded traces with TLC, write evidence and verdicts."""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")   # the override serves mutation runs on scratch copies
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
OUT = os.environ.get("VERIF_OUT", VERIF)
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    """The machinery itself failed: error exit, never a violation."""


def log(*a):
    print(*a, flush=True)


def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             CGO_ENABLED="0", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"))
    return e


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = 0          # distinct states found by TLC in design + generator runs
        self.transitions = 0     # states generated by TLC in design + generator runs
        self.traces = 0          # traces of the real code validated
        self.events = 0
        self.trace_states = 0
        self.samples = []
        self.legs = []
        self.violations = []     # (leg, description, replay payload)
        self.known = []
        self.assumptions = []
        self.exhaustive = False
        self._bins = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, *p):
        return os.path.join(self.work, *p)

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def go_build(self, name, in_pkg=None, race=False, tags=None):
        """Build /verif/harness/<name>/*.go as package main at /repo/zzverif/<name>
        (overlay), or, with in_pkg={pkgdir: [files]}, add files to a package."""
        if name in self._bins:
            return self._bins[name]
        rep = {}
        base = os.path.join(VERIF, "harness")
        for d in sorted(os.listdir(base)):
            for f in sorted(glob.glob(os.path.join(base, d, "*.go"))):
                rep["%s/zzverif/%s/%s" % (REPO, d, os.path.basename(f))] = f
        for pkg, files in (in_pkg or {}).items():
            for f in files:
                rep["%s/%s/%s" % (REPO, pkg, os.path.basename(f))] = f
        ov = self.path("overlay-%s.json" % name)
        json.dump({"Replace": rep}, open(ov, "w"))
        out = self.path("bin-" + name)
        cmd = ["go", "build", "-overlay", ov, "-o", out]
        if tags:
            cmd += ["-tags", tags]
        cmd += ["./zzverif/" + name]
        p = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode != 0:
            raise ToolError("harness %s does not build against /repo:\n%s" % (name, p.stdout[-4000:]))
        self._bins[name] = out
        return out

    def go_prog(self, pkg):
        """Build a program of the repository as it is."""
        out = self.path("prog-" + pkg.replace("/", "_"))
        p = subprocess.run(["go", "build", "-o", out, "./" + pkg], cwd=REPO, env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode != 0:
            raise ToolError("%s does not build:\n%s" % (pkg, p.stdout[-4000:]))
        return out

    def java_build(self, name, modules):
        """Compile the harness and the contracts of javascore it drives, with the
        stand-in of the ICON VM in harness/java/rt."""
        if name in self._bins:
            return self._bins[name]
        j = os.path.join(VERIF, "harness", "java")
        proc, out = self.path("proc"), self.path("cls-" + name)
        src = []
        for d in [os.path.join(j, "rt"), os.path.join(j, name)] + \
                 [os.path.join(REPO, "javascore", m, "src", "main", "java") for m in modules]:
            for r, _, fs in sorted(os.walk(d)):
                src += [os.path.join(r, f) for f in sorted(fs) if f.endswith(".java")]
        for cmd in (["javac", "-nowarn", "-d", proc, os.path.join(j, "Gen.java")],
                    ["javac", "-nowarn", "-encoding", "UTF-8", "-d", out, "-cp", proc, "-processor", "Gen",
                     "-processorpath", proc] + src):
            p = subprocess.run(cmd, cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            if p.returncode != 0:
                raise ToolError("harness %s does not build against /repo:\n%s" % (name, p.stdout[-4000:]))
        self._bins[name] = out
        return out

    def java_drive(self, cls, mode, scenarios, timeout=600):
        fin, fout = self.path("scn-%s.json" % mode), self.path("trc-%s.json" % mode)
        json.dump(scenarios, open(fin, "w"))
        self.run(["java", "-Xmx4g", "-Xss16m", "-cp", cls, "Main", fin, fout, str(self.seed)], timeout)
        return json.load(open(fout))

    def run(self, cmd, timeout, stdin=None, env=None, ok=(0,)):
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=self.work, env=e, input=stdin, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("timeout (%ss): %s" % (timeout, " ".join(cmd)[:300]))
        if p.returncode not in ok:
            raise ToolError("exit %d: %s\n%s\n%s" % (p.returncode, " ".join(cmd)[:300],
                                                    p.stdout[-2000:], p.stderr[-4000:]))
        return p

    def drive(self, binary, mode, scenarios, timeout=600, args=(), env=None):
        """Replay scenarios on the real code; returns the list of recorded traces."""
        fin, fout = self.path("scn-%s.json" % mode), self.path("trc-%s.json" % mode)
        json.dump(scenarios, open(fin, "w"))
        self.run([binary, mode, fin, fout, str(self.seed)] + list(args), timeout, env=env)
        return json.load(open(fout))

    # ------------------------------------------------------------------ TLC
    def tlc(self, specdir, module, cfg=None, env=None, workers=None, simulate=None,
            depth=None, timeout=600, heap="6g", extra=(), seed=None, count=True, dfs=False):
        src = os.path.join(VERIF, "spec", specdir)
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        for dd in (os.path.join(VERIF, "spec", "common"), src):
            for f in glob.glob(os.path.join(dd, "*")):
                if os.path.isfile(f):
                    shutil.copy(f, d)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + d,
               "-Dtlc2.tool.queue.IStateQueue=StateDeque" if dfs else "-Dverif=1",
               "-cp", JAR, "tlc2.TLC",
               "-config", cfg or module + ".cfg", "-metadir", os.path.join(d, "states"),
               "-workers", str(workers or NCPU), "-deadlock", "-cleanup"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 50),
                    "-seed", str(self.seed if seed is None else seed)]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timeout (%ss): %s/%s" % (timeout, specdir, module))
        out = p.stdout
        shutil.rmtree(d, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen = dis = 0
        if m:
            gen, dis = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                gen = dis = int(m[-1].replace(",", ""))
        if count:
            self.states += dis
            self.transitions += gen
        return p.returncode, out, gen, dis

    def check_design(self, specdir, module, cfg=None, **kw):
        """Exhaustive (or simulated) model checking of a design specification."""
        rc, out, gen, dis = self.tlc(specdir, module, cfg, **kw)
        if rc != 0:
            raise ToolError("design spec %s/%s fails its own check (rc=%d):\n%s"
                            % (specdir, cfg or module, rc, out[-2500:]))
        self.legs.append({"leg": "design:%s" % (cfg or module), "states": dis, "transitions": gen})
        log("  design %-28s distinct=%d generated=%d" % (cfg or module, dis, gen))
        return out

    def generate(self, specdir, module, cfg=None, **kw):
        """Behaviours printed by a generator spec as PrintT(ToJson(..)) lines
        prefixed SCN; duplicates removed, order made deterministic."""
        rc, out, gen, dis = self.tlc(specdir, module, cfg, **kw)
        if rc != 0:
            raise ToolError("generator %s/%s rc=%d:\n%s" % (specdir, cfg or module, rc, out[-4000:]))
        res = {}
        for line in out.splitlines():
            if line.startswith('"SCN'):
                res[json.loads(line)[3:]] = 1
        scn = [json.loads(s) for s in sorted(res)]
        if not scn:
            raise ToolError("generator %s/%s produced nothing:\n%s" % (specdir, cfg or module, out[-3000:]))
        log("  generate %-26s behaviours=%d (TLC states=%d)" % (cfg or module, len(scn), dis))
        self.legs.append({"leg": "generate:%s" % (cfg or module), "states": dis,
                          "transitions": gen, "behaviours": len(scn)})
        return scn

    def pick(self, scn, n):
        """Deterministic sample for this seed."""
        if n is None or len(scn) <= n:
            return scn
        r = random.Random(self.seed * 7919 + len(scn))
        idx = sorted(r.sample(range(len(scn)), n))
        return [scn[i] for i in idx]

    def validate(self, leg, specdir, module, traces, cfg=None, env=None, timeout=800,
                 scenarios=None, describe=None, dfs=False, heap="8g", workers=None):
        """Trace validation: every recorded trace must be a behaviour of the spec."""
        if not traces:
            raise ToolError("leg %s recorded no trace" % leg)
        f = self.path("trace-%s.json" % re.sub(r"\W", "_", leg))
        json.dump(traces, open(f, "w"))
        e = {"TRACES": f, "TRDEBUG": "0"}
        e.update(env or {})
        # A trace on which the specification has no value (an event outside of its
        # vocabulary, an operator outside of its domain) is no behaviour of it: it is
        # set aside as rejected and the others are validated without it.
        odd, left, acc, gen, dis = [], list(range(1, len(traces) + 1)), set(), 0, 0
        while left:
            rc, out, g, d = self.tlc(specdir, module, cfg, env=e, timeout=timeout, count=False,
                                     dfs=dfs, heap=heap, workers=workers)
            gen, dis = gen + g, dis + d
            acc |= set(left[int(x) - 1] for x in re.findall(r'<<"ACCEPT", (\d+)>>', out))
            if rc == 0:
                break
            m = re.findall(r'^/\\ sc = (\d+)$', out, re.M)
            if not m or len(odd) >= 3 or "Error: The error occurred when TLC was evaluating" not in out:
                if not odd:
                    raise ToolError("trace validation %s/%s rc=%d:\n%s" % (specdir, module, rc, out[-2500:]))
                acc |= set(left)        # enough is known, the rest stays undecided
                break
            k = left.pop(int(m[-1]) - 1)
            n = re.findall(r'^/\\ l = (\d+)$', out, re.M)
            odd.append((k, int(n[-1]) if n else 0))
            log("  no value: %s" % " ".join(re.findall(r'^Error: (.*)$', out, re.M))[:300])
            json.dump([traces[i - 1] for i in left], open(f, "w"))
        acc -= set(k for k, _ in odd)
        bad = [i for i in range(1, len(traces) + 1) if i not in acc]
        self.traces += len(traces)
        self.events += sum(len(t) for t in traces)
        self.trace_states += dis
        self.legs.append({"leg": leg, "traces": len(traces), "events": sum(len(t) for t in traces),
                          "trace_states": dis, "rejected": len(bad)})
        if len(self.samples) < 6:
            t = traces[len(traces) // 2][:6]
            while len(t) > 1 and len(json.dumps(t)) > 2500:
                t = t[:-1]
            if len(json.dumps(t)) > 2500:
                t = [json.dumps(t)[:2500]]
            self.samples.append({"leg": leg, "trace": t})
        log("  validate %-26s traces=%d events=%d rejected=%d" %
            (leg, len(traces), sum(len(t) for t in traces), len(bad)))
        for i, a in odd:
            t = traces[i - 1]
            ev = t[a - 1] if 0 < a <= len(t) else None
            self.violations.append({"leg": leg, "at": a, "event": ev, "spec": specdir + "/" + module,
                                    "scenario": scenarios[i - 1] if scenarios else None, "trace": t})
            log("  REJECTED %s trace %d at event %d: %s" % (leg, i, a, json.dumps(ev)[:900]))
        bad = [i for i in bad if i not in dict(odd)][:400]
        if bad:
            f2 = self.path("bad.json")
            json.dump([traces[i - 1] for i in bad], open(f2, "w"))
            e2 = dict(e)
            e2.update(TRACES=f2, TRDEBUG="1")
            rc, out, _, _ = self.tlc(specdir, module, cfg, env=e2, timeout=timeout, count=False,
                                     dfs=dfs, heap=heap, workers=1)
            if re.search(r'<<"ACCEPT", \d+>>', out):
                raise ToolError("unstable verdict on leg %s" % leg)
            at = {}
            for x, y in re.findall(r'<<"AT", (\d+), (\d+)>>', out):
                at[int(x)] = max(at.get(int(x), 0), int(y))
            for k, i in enumerate(bad, 1):
                t, a = traces[i - 1], at.get(k, 0)
                ev = t[a - 1] if 0 < a <= len(t) else None
                self.violations.append({"leg": leg, "at": a, "event": ev, "spec": specdir + "/" + module,
                                        "scenario": scenarios[i - 1] if scenarios else None, "trace": t})
                if k <= 5:
                    log("  REJECTED %s trace %d at event %d: %s" % (leg, i, a, json.dumps(ev)[:900]))
            if len(bad) > 5:
                log("  ... and %d more rejected traces" % (len(bad) - 5))
        return bad


def load_known():
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                r = json.loads(line)
                if r.get("status") == "known":
                    res.append(r)
    return res


def matches(known, v):
    """A known finding names a leg and exact values of fields of the rejected event."""
    if known["leg"] != v["leg"] or v["event"] is None:
        return False
    return all(v["event"].get(k) == val for k, val in known["event"].items())


def finish(ctx, level="model_checking"):
    viol = []
    known = [k for k in load_known() if k["property"] == ctx.prop]
    seen = set()
    for v in ctx.violations:
        k = next((k for k in known if matches(k, v)), None)
        if k:
            if k["id"] not in seen:
                seen.add(k["id"])
                log("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]))
        else:
            viol.append(v)
    for k in known:
        # a finding of a leg outside this tier is still reported, from the file
        if k["id"] not in seen and k.get("always"):
            log("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]))
    rc = 0
    replay = None
    if viol:
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, "%s.json" % ctx.prop)
        json.dump(viol[:40], open(replay, "w"), indent=1)
        rc = 1
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.traces,
            "trace_events": ctx.events, "trace_states": ctx.trace_states,
            "legs": ctx.legs, "samples": ctx.samples, "exhaustive": ctx.exhaustive,
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, "evidence", ctx.prop + ".json"), "w"), indent=1)
    if viol:
        log("VIOLATION property=%s replay=%s" % (ctx.prop, replay))
    else:
        log("OK property=%s traces=%d events=%d states=%d wall=%.1fs" %
            (ctx.prop, ctx.traces, ctx.events, ctx.states, time.time() - ctx.t0))
    return rc
