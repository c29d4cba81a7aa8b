"""Common machinery of the checks: TLC, the Go drivers, traces, evidence, verdict."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class Broken(Exception):
    """the check itself cannot give an answer"""

def goenv():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], capture_output=True, text=True)
    for kv in out.stdout.split("\0"):
        k, _, v = kv.partition("=")
        if k in ("PATH", "GOTOOLCHAIN", "GOFLAGS", "GOPROXY", "GOWORK", "GOPATH", "GOMODCACHE", "GOCACHE", "HOME", "LANG"):
            e[k] = v
    e["TZ"] = "Asia/Tokyo"
    return e

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        atexit.register(shutil.rmtree, self.work, True)
        self.stats, self.samples, self.violations, self.assumptions, self.notes = {}, [], [], [], []
        self.stats.update(states=0, transitions=0, traces_validated_against_impl=0)
        self.env = goenv()
        self.env["VERIF_TIER"], self.env["VERIF_SEED"] = self.tier, str(self.seed)
        self.replays = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(self.replays, exist_ok=True)
        for f in os.listdir(self.replays):
            if f.startswith(pid + "-"): os.unlink(os.path.join(self.replays, f))
        self.nproc = os.cpu_count() or 4

    def scale(self, q, t): return t if self.thorough else q
    def add(self, k, n): self.stats[k] = self.stats.get(k, 0) + n
    def path(self, n): return os.path.join(self.work, n)
    def log(self, *a): print("[%s %5.1fs]" % (self.pid, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # ------------------------------------------------------------- TLC
    def tlc(self, module, cfg, workers=None, env=None, timeout=800, mem="6g", extra=()):
        meta = tempfile.mkdtemp(dir=self.work)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", meta, "-workers", str(workers or min(4, self.nproc)), "-config", cfg, *extra, module]
        e = dict(os.environ); e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on %s %s" % (module, cfg))
        return p.returncode, p.stdout + p.stderr

    def cfg(self, base, **subst):
        """a copy of spec/<base>.cfg with some constants changed"""
        s = open(os.path.join(SPEC, base + ".cfg")).read()
        for k, v in subst.items():
            s, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=).*$" % k, lambda m: m.group(1) + " " + str(v), s)
            if n != 1: raise Broken("no constant %s in %s" % (k, base))
        p = self.path("%s-%d.cfg" % (base, len(os.listdir(self.work))))
        open(p, "w").write(s)
        return p

    def model(self, module, cfg=None, deadlock=False, **kw):
        """model check: the specification itself must satisfy its invariants and properties"""
        cfg = cfg or module + ".cfg"
        rc, out = self.tlc(module, cfg, extra=() if deadlock else ("-deadlock",), **kw)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc != 0 or not m:
            raise Broken("TLC on %s %s: rc=%d\n%s" % (module, cfg, rc, tail(out)))
        self.add("transitions", int(m[-1][0])); self.add("states", int(m[-1][1]))
        self.stats.setdefault("models", []).append("%s: %s states, %s transitions" % (module, m[-1][1], m[-1][0]))
        self.log("TLC", module, m[-1])
        return out

    def graph(self, module, cfg=None, **kw):
        """model check and export every transition for replay"""
        cfg = cfg or module + ".cfg"
        out = self.model(module, cfg, **kw)
        f = self.path(module + "-%d.graph" % len(os.listdir(self.work)))
        n, states = 0, set()
        with open(f, "w") as w:
            for l in out.split("\n"):
                if l.startswith('"{'):
                    w.write(json.loads(l) + "\n"); n += 1
        if n == 0: raise Broken("no transitions exported by " + module)
        return f

    # ------------------------------------------------------------- Go
    def overlay(self, pkgs, tag="i"):
        """build overlay with the shims and the given packages instrumented"""
        out = self.path("overlay-" + tag)
        instr = self.path("instr.bin")
        if not os.path.exists(instr):
            self.go(["build", "-o", instr, "./cmd/instr"])
        r = subprocess.run([instr, "-repo", REPO, "-out", out, *pkgs], capture_output=True, text=True)
        if r.returncode != 0: raise Broken("instr: " + r.stderr)
        return os.path.join(out, "overlay.json")

    def go(self, args, timeout=600):
        r = subprocess.run(["go", *args], cwd=HARNESS, env=self.env, capture_output=True, text=True, timeout=timeout)
        if r.returncode != 0: raise Broken("go %s:\n%s" % (" ".join(args), tail(r.stdout + r.stderr)))
        return r.stdout

    def build(self, pkg, instrument=(), race=False):
        """test binary of ./drv/<pkg>; if instrumented code does not compile, fall back to plain code"""
        bin = self.path("%s-%d%s.test" % (pkg.replace("/", "_"), len(instrument), "-race" if race else ""))
        if os.path.exists(bin): return bin
        for pk in ([instrument, ()] if instrument else [()]):
            ov = self.overlay(pk, tag="%s-%d" % (pkg.replace("/", "_"), len(pk)))
            args = ["test", "-c", "-vet=off", "-overlay", ov, "-o", bin] + (["-race"] if race else []) + ["./drv/" + pkg]
            try:
                self.go(args)
                if instrument and not pk:
                    self.notes.append("instrumented build failed, plain build used")
                return bin
            except Broken as e:
                err = e
        raise err

    def run(self, bin, test, env=None, timeout=None, crash_is_violation=True, sig=None, args=(), ok_codes=(0,)):
        """run a driver; returns (done, findings)"""
        timeout = timeout or self.scale(240, 700)
        if not self.thorough and self.unknown():   # something is wrong: what follows may wait for what does not come
            left = 480 - (time.time() - self.t0)
            if left < 60: raise Broken("enough is known to be wrong")
            timeout = min(timeout, left)
        out = self.path("out-%d.jsonl" % len(os.listdir(self.work)))
        e = dict(self.env); e.update({k: str(v) for k, v in (env or {}).items()}); e["V_OUT"] = out
        e.setdefault("GORACE", "halt_on_error=1 exitcode=66")
        self.log("run", os.path.basename(bin), test)
        try:
            r = subprocess.run([bin, "-test.run", "^" + test + "$", "-test.timeout", "%ds" % (timeout + 30), *args],
                               cwd=self.work, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
            rc, txt = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired as x:
            dec = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
            rc, txt = "timeout", dec(x.stdout) + dec(x.stderr)
        done, found = False, 0
        if os.path.exists(out):
            for l in open(out):
                try: d = json.loads(l)
                except ValueError: continue
                if d["kind"] == "violation": self.violation(d["sig"], d["msg"], d.get("replay")); found += 1
                elif d["kind"] == "stat": self.add(d["k"], d["n"])
                elif d["kind"] == "sample": self.sample(d["v"])
                elif d["kind"] == "done": done = True
        self.last_output = txt
        if "no tests to run" in txt: raise Broken("no such driver: " + test)
        if not done or (rc not in ok_codes and not found):
            if crash_is_violation and (not done or rc not in ok_codes):
                if found: return done, found
                kind = "timeout" if rc == "timeout" else classify(txt)
                self.violation(sig or "crash-" + kind, "the driver %s ended abnormally (%s): %s" % (test, rc, headline(txt)),
                               {"output": txt[-6000:]})
        return done, found

    # ------------------------------------------------------------- traces
    def validate(self, module, traces, cfg=None, sig=None, chunk=None, describe=None):
        """every recorded history must be a behaviour of the trace specification"""
        cfg = cfg or module + ".cfg"
        lines = [l for l in open(traces) if l.endswith("}\n")]  # a driver which was stopped may leave half a line
        if not lines: raise Broken("no traces for " + module)
        import concurrent.futures as cf
        k = min(self.nproc, max(1, len(lines) // 20 + 1))
        parts = [lines[j::k] for j in range(k)]
        def one(j):
            f = self.path("%s-%d-%d.ndjson" % (module, j, len(os.listdir(self.work))))
            open(f, "w").writelines(parts[j])
            rc, out = self.tlc(module, cfg, workers=1, env={"TRACE": f}, extra=("-deadlock",), mem="3g")
            m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
            acc = set(int(x) for x in re.findall(r'"ACC (\d+)"', out))
            if rc != 0 or not m: return ("bad", rc, out, acc, j)
            return ("ok", int(m[-1][0]), int(m[-1][1]), acc, j)
        rej = []
        with cf.ThreadPoolExecutor(k) as ex:
            for r in ex.map(one, range(k)):
                if r[0] == "bad": raise Broken("TLC on %s: %s\n%s" % (module, r[1], tail(r[2])))
                self.add("trace_transitions", r[1]); self.add("trace_states", r[2])
                rej += [parts[r[4]][t] for t in range(len(parts[r[4]])) if t + 1 not in r[3]]
        self.add("traces_validated_against_impl", len(lines))
        self.log("validated", module, len(lines), "rejected", len(rej))
        for l in rej[:3]:
            f = self.path("rej.ndjson"); open(f, "w").write(l)
            c2 = self.path("rej.cfg")
            open(c2, "w").write(open(os.path.join(SPEC, cfg) if not os.path.isabs(cfg) else cfg).read() + "\nCONSTRAINT Progress\n")
            rc, out = self.tlc(module, c2, workers=1, env={"TRACE": f}, extra=("-deadlock",))
            pos = [int(x) for x in re.findall(r'"POS \d+ (\d+)"', out)]
            t = json.loads(l); at = max(pos or [1])
            ev = t["ev"][at - 1] if at <= len(t["ev"]) else None
            self.violation((sig or module), "recorded history is not a behaviour of %s: no explanation for event %d %s"
                           % (module, at, json.dumps(ev)), {"trace": t, "stuck_at": at})
        if not rej: self.sample({"trace": json.loads(min(lines[:50], key=len))})
        return rej

    # ------------------------------------------------------------- verdict
    def sample(self, v):
        if len(self.samples) < 6: self.samples.append(v)

    def violation(self, sig, msg, replay=None):
        self.violations.append((sig, msg, replay))

    def unknown(self):
        known = load_known(self.pid)
        return [v for v in self.violations if not any(x["sig"] in v[0] + " " + v[1] for x in known)]

    def finish(self, rule=None):
        known = load_known(self.pid)
        new, seen = [], []
        for sig, msg, replay in self.violations:
            k = next((x for x in known if x["sig"] in sig + " " + msg), None)
            if k: seen.append(k)
            else: new.append((sig, msg, replay))
        cov = dict(self.stats)
        cov["samples"] = self.samples or ["none"]
        if self.level == "exploration":
            cov.setdefault("rule", rule or "")
        if self.notes: cov["notes"] = self.notes
        ev = dict(property=self.pid, tier=self.tier if self.tier in ("quick", "thorough") else "quick", seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in {json.dumps(x): x for x in seen}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for n, (sig, msg, replay) in enumerate(new[:10]):
            p = os.path.join(self.replays, "%s-%d.json" % (self.pid, n))
            with open(p, "w") as f: json.dump(dict(property=self.pid, sig=sig, msg=msg, seed=self.seed, replay=replay), f, indent=1)
            print("  %s: %s" % (sig, msg[:700]), file=sys.stderr)
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        self.log("done", {k: v for k, v in self.stats.items() if k != "models"}, "violations", len(new))
        return 1 if new else 0

def load_known(pid):
    """known_findings.txt: 'known: property=<id> sig=<substring> :: <what fails>' and 'fixed: ...' lines"""
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) sig=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == pid: out.append(dict(sig=m.group(2), what=m.group(3)))
    return out

def tail(s, n=3000): return "\n".join(l for l in s.split("\n") if not l.startswith('"{'))[-n:]

def classify(txt):
    if "DATA RACE" in txt: return "race"
    if "fatal error" in txt: return "fatal"
    if "panic" in txt: return "panic"
    return "exit"

def headline(txt):
    for pat in (r"WARNING: DATA RACE[\s\S]{0,900}", r"fatal error:.*", r"panic: [\s\S]{0,300}", r"deadlock.*"):
        m = re.search(pat, txt)
        if m: return m.group(0)
    return tail(txt, 400)
