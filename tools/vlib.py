"""Shared machinery of the checks: build the real code, let TLC check a model and generate scripts,
drive the real code with them, and let TLC decide whether the recorded events are behaviours of the
specification.  Exit codes: 0 held, 1 VIOLATION printed, 2 the check itself could not decide."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "crates"))):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".rs", ".toml", ".h")):
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def cargo_env():
    env = dict(os.environ)
    env.update(CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
               CARGO_INCREMENTAL="0")
    env.pop("RUSTFLAGS", None)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.setdefault("HOME", "/root")
    return env


# packages whose sources (partly) live in /repo, leaf-first
REPO_PKGS = ["core-real", "bls-crypto", "bls-gadgets", "epoch-snark", "bls-snark-sys",
             "drv-crypto", "drv-gadgets", "drv-epoch", "drv-ffi"]


DRIVERS = [("core-real", ""), ("drv-crypto", ""), ("drv-crypto", "nc"), ("drv-gadgets", ""), ("drv-gadgets", "nc"), ("drv-epoch", ""), ("drv-ffi", "")]


class Enough(Exception):
    """A violation has been found and the time a quick check has is short."""


class CodeDied(Exception):
    """The code under test killed or hung the driver that was exercising it."""


def target_dir(variant=""):
    return os.path.join(TARGET, variant) if variant else TARGET


def drop_stale(env, TARGET):
    """Cargo decides freshness by mtime; after a copy or a checkout that need not be right.  Forget
    the fingerprints of everything compiled from /repo whenever its contents changed."""
    stamp = os.path.join(TARGET, "repo.sha256")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old == now:
        return
    for prof in ("debug", "release"):
        fp = os.path.join(TARGET, prof, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if any(re.fullmatch(re.escape(p) + "-[0-9a-f]{16}", d) for p in REPO_PKGS):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    os.makedirs(TARGET, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)


def build(pkg, variant="", timeout=800):
    """variant "nc": without the repository's default `compat` feature."""
    env = cargo_env()
    tgt = target_dir(variant)
    env["CARGO_TARGET_DIR"] = tgt
    os.makedirs(tgt, exist_ok=True)
    import fcntl
    with open(os.path.join(tgt, "verif.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drop_stale(env, tgt)
        flags = ["--no-default-features"] if variant == "nc" else []
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "-p", pkg] + flags, cwd=os.path.join(VERIF, "harness"),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        errs = [l for l in r.stdout.splitlines() if not l.startswith("warning")]
        raise ToolError("building %s from /repo failed:\n%s" % (pkg, "\n".join(errs[-60:])))
    log("built", pkg, variant)


def tlc(module, cfg=None, env=None, timeout=600, workers=8, extra=(), heap="8g", trace=False):
    """Returns (ok, output, stats).  ok is False only for a property violation or deadlock."""
    cfg = cfg or module + ".cfg"
    md = os.path.join(OUT, "tlc", "%s-%d-%d" % (module, os.getpid(), random.randrange(1 << 30)))
    os.makedirs(md, exist_ok=True)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", md, "-config", cfg, *extra, module + ".tla"]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        raise ToolError("TLC %s timed out after %ds" % (module, timeout))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    stats = {"transitions": int(m[-1][0]) if m else 0, "states": int(m[-1][1]) if m else 0, "s": round(time.time() - t, 1)}
    if rc == 0 and ("No error has been found" in out or "-simulate" in extra):
        return True, out, stats
    # 11 deadlock, 12 safety, 13 liveness
    if rc in (11, 12, 13) and "Error: The error occurred when TLC was evaluating" not in out:
        return False, out, stats
    # In a trace module every event of the unchanged code evaluates: an event on which the specification's
    # operators are not even defined (a digest that is too short to be indexed, say) is rejected too.
    if trace and "The behavior up to this point is" in out and not re.search(r"OutOfMemory|StackOverflow|StackOverFlow", out):
        return False, out, stats
    tail = "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting")))
    raise ToolError("TLC %s failed (rc %s):\n%s" % (module, rc, tail[:1500] + "\n...\n" + tail[-3000:]))


def coverage_of(out):
    """action name -> (distinct, taken), from the -coverage report."""
    cov = {}
    for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
        a, d, t = m.group(1), int(m.group(2)), int(m.group(3))
        x = cov.get(a, (0, 0))
        cov[a] = (max(x[0], d), max(x[1], t))
    return cov


def read_events(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


def write_events(path, evs):
    with open(path, "w") as f:
        for e in evs:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.states = self.transitions = 0
        self.validated = 0
        self.samples, self.assumptions, self.detail = [], [], {}
        self.violations = []      # (description, replay path)
        self.known = []
        self.dir = os.path.join(OUT, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.findings = load_findings(pid)

    def path(self, name):
        return os.path.join(self.dir, name)

    # -- the model ---------------------------------------------------------------------------
    def model(self, module, cfg=None, gen=None, env=None, timeout=600, must_cover=(), extra=(), workers=8, tag=None):
        """Model checks the specification.  A violation here is a broken specification (the model does
        not depend on /repo), hence a tool error."""
        e = dict(env or {})
        if gen:
            e["GEN"] = gen
        x = list(extra)
        if must_cover:
            x += ["-coverage", "1"]
        ok, out, st = tlc(module, cfg, e, timeout, workers, x)
        if not ok:
            raise ToolError("the specification %s violates its own properties:\n%s" % (module, out[-3000:]))
        if must_cover:
            cov = coverage_of(out)
            for a in must_cover:
                if cov.get(a, (0, 0))[1] == 0:
                    raise ToolError("vacuity: action %s of %s was never taken: %s" % (a, module, cov))
            self.detail.setdefault("action_coverage", {})[tag or cfg or module] = {a: list(cov[a]) for a in must_cover}
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.detail.setdefault("models", []).append({"module": module, "cfg": cfg or module + ".cfg", **st})
        log("model", cfg or module, st)
        return out

    def simulate(self, module, cfg, out, num, depth=60, timeout=300):
        """Scripts of random behaviours of the model (TLC -simulate); its invariants are checked on the way."""
        ok, o, st = tlc(module, cfg, None, timeout, 1, ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(SEED)])
        scripts = [json.loads(l)[7:] for l in o.splitlines() if l.startswith('"SCRIPT ')]
        if not ok or len(scripts) < num // 2:
            raise ToolError("simulation of %s gave %d scripts:\n%s" % (module, len(scripts), o[-3000:]))
        with open(out, "w") as f:
            f.write("\n".join(scripts) + "\n")
        m = re.search(r"The number of states generated: (\d+)", o)
        self.transitions += int(m.group(1)) if m else 0
        self.detail.setdefault("simulations", []).append({"module": module, "cfg": cfg, "scripts": len(scripts)})
        log("simulated", cfg, len(scripts))

    # -- the real code -----------------------------------------------------------------------
    def drive(self, pkg, scenario, script, out, timeout=700, env=None, variant=""):
        build(pkg, variant)
        e = cargo_env()
        e.update({"VERIF_SEED": str(SEED), "VERIF_TIER": TIER})
        e.update({k: str(v) for k, v in (env or {}).items()})
        if not THOROUGH:
            timeout = max(120, min(timeout, 850 - int(time.time() - T0)))
        try:
            r = subprocess.run([os.path.join(target_dir(variant), "debug", pkg), scenario, script or "-", out], env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CodeDied("driver %s %s did not finish within %d s: some call into the code under test does not return" % (pkg, scenario, timeout))
        if r.returncode == 2 or r.returncode == -9:
            raise ToolError("driver %s %s: rc %d\n%s" % (pkg, scenario, r.returncode, r.stdout[-3000:]))
        if r.returncode != 0:
            # drivers guard the calls whose failure is an outcome; dying elsewhere is one no specification allows
            raise CodeDied("driver %s %s died (rc %d) in the code under test\n%s" % (pkg, scenario, r.returncode, r.stdout[-2000:]))
        n = sum(1 for _ in open(out))
        log("drove", pkg, scenario, "->", n, "events")
        return n

    def late(self):
        return not THOROUGH and time.time() - T0 > 360

    # -- conformance -------------------------------------------------------------------------
    def _trace(self, module, cfg, path, parts, timeout, env=None):
        e = {"TRACE": path, "PARTS": parts}
        e.update(env or {})
        return tlc(module, cfg, e, timeout, trace=True)

    def conform(self, module, trace, cfg=None, parts=64, timeout=700, corrupt=None, describe=None, env=None, maxviol=5):
        """Every event of the trace must be a behaviour of the specification.  Events are independent
        segments: the ones TLC rejects are reported one by one and the rest is still checked."""
        evs = read_events(trace)
        if not evs:
            raise ToolError("empty trace " + trace)
        evs = self.set_known_aside(module, cfg, evs, env)
        describe = describe or (lambda e: {k: v for k, v in e.items() if not isinstance(v, (list, dict)) or len(str(v)) < 80})
        todo = list(evs)
        bad = []
        while True:
            p = self.path("cur.ndjson")
            write_events(p, todo)
            ok, out, st = self._trace(module, cfg, p, max(1, min(parts, len(todo))), timeout, env)
            if ok:
                break
            i = last_l(out)
            if i is None or not 1 <= i <= len(todo):
                raise ToolError("cannot locate the rejected event:\n" + out[-3000:])
            bad.append(todo.pop(i - 1))
            if len(bad) >= maxviol or not todo or self.late():
                break
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.validated += len(todo)
        self.detail.setdefault("traces", []).append({"module": module, "cfg": cfg or module + ".cfg", "events": len(evs),
                                                     "rejected": len(bad), **st})
        log("conform", module, "events", len(evs), "rejected", len(bad), st)
        for b in bad:
            self.report(module, cfg, b, describe(b), env)
        if self.violations and self.late():
            raise Enough()
        if todo:
            rnd = random.Random(SEED)
            for e in rnd.sample(todo, min(2, len(todo))):
                s = json.dumps(e)
                self.samples.append(e if len(s) < 1500 else {"truncated": s[:1500]})
        if corrupt and not bad:
            self.selftest(module, cfg, evs, corrupt, env)

    def set_known_aside(self, module, cfg, evs, env):
        """Events identified by a known finding are reported as such when the specification rejects them
        (one of each is asked), and judged like any other when it does not."""
        rest, first = [], {}
        for e in evs:
            f = next((f for f in self.findings if f["match"](e)), None)
            if f is None:
                rest.append(e)
            else:
                first.setdefault(f["text"], e)
        for text, e in first.items():
            p = self.path("known.ndjson")
            write_events(p, [e])
            if not self._trace(module, cfg, p, 1, 300, env)[0]:
                self.known.append(text)
        return rest

    def split(self, trace, pred):
        """the events of a trace for which pred holds, and the others, as two traces"""
        evs = read_events(trace)
        a, b = trace + ".a", trace + ".b"
        write_events(a, [e for e in evs if pred(e)])
        write_events(b, [e for e in evs if not pred(e)])
        return a, b

    def selftest(self, module, cfg, evs, corrupt, env=None, n=3):
        """The binding is not vacuous: corrupted copies of recorded events must be rejected."""
        rnd = random.Random(SEED + 17)
        done = []
        sized = sorted(((len(json.dumps(e)), i) for i, e in enumerate(evs)))
        small = [evs[i] for n, i in sized if n < 20000]
        large = [evs[i] for n, i in sized if n >= 20000][:400]
        for e in rnd.sample(small, min(len(small), 400)) + large:
            c = corrupt(json.loads(json.dumps(e)), rnd)
            if c is not None and c != e:
                done.append(c)
            if len(done) >= n:
                break
        if not done:
            raise ToolError("selftest: nothing to corrupt")
        for c in done:
            p = self.path("corrupt.ndjson")
            write_events(p, [c])
            ok, out, st = self._trace(module, cfg, p, 1, 300, env)
            if ok:
                raise ToolError("selftest: %s accepts a corrupted event: %s" % (module, json.dumps(c)[:1500]))
        self.detail["corrupted_events_rejected"] = self.detail.get("corrupted_events_rejected", 0) + len(done)

    def report(self, module, cfg, event, what, env=None):
        key = json.dumps(what, sort_keys=True)
        for f in self.findings:
            if f["match"](event):
                self.known.append(f["text"])
                return
        name = "viol-%d.json" % (len(self.violations) + 1)
        p = self.path(name)
        with open(p, "w") as f:
            json.dump({"property": self.pid, "spec": module, "cfg": cfg or module + ".cfg", "env": env or {},
                       "rejected_event": event,
                       "how": "TLC rejects this recorded event: the specification allows no such outcome of that call. "
                              "Replay: write rejected_event as one line to F; TRACE=F PARTS=1 tlc -config <cfg> <spec>.tla in /verif/spec"},
                      f, indent=1)
        self.violations.append((key, p))

    def fail(self, what, data):
        """A violation decided outside a trace check (kept to counting obligations of the driver)."""
        p = self.path("viol-%d.json" % (len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "data": data}, f, indent=1)
        self.violations.append((what, p))

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated, "samples": self.samples[:6], **self.detail}
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for what, p in self.violations:
            print("rejected:", what[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        if not self.violations:
            print("OK property=%s events=%d states=%d" % (self.pid, self.validated, self.states))
        return 1 if self.violations else 0


def last_l(out):
    """The index of the event TLC could not explain: /\\ l = N in the last state printed."""
    m = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
    return int(m[-1]) if m else None


def load_findings(pid):
    """known-findings.txt: 'KNOWN property=<id> match=<json subset of the event> <text>'; lines starting
    with 'fixed:' document repaired defects and suppress nothing."""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN property=(\S+) match=(\{.*?\}) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                want = json.loads(m.group(2))
                res.append({"text": m.group(3), "match": (lambda e, w=want: all(e.get(k) == v for k, v in w.items()))})
    return res
