"""Shared plumbing of the checks: building the harness, running monitors, verdicts, evidence."""
import hashlib, json, os, re, resource, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
HARNESS = os.path.join(ROOT, "harness")
sys.path.insert(0, os.path.join(ROOT, "tools"))
import gen  # noqa: E402


class Inconclusive(Exception):
    pass


def clean_env(**extra):
    e = {k: v for k, v in os.environ.items()
         if not (k.startswith("CARGO_") and k not in ("CARGO_HOME",)) and k not in
         ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUST_BACKTRACE", "MIRIFLAGS", "RUSTUP_TOOLCHAIN")}
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e.update({k: str(v) for k, v in extra.items()})
    return e


class Run:
    """One run of one check: collects violations and coverage, writes the evidence, ends the process."""

    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.viols = []            # dicts
        self.evals = 0
        self.distinct = 0
        self.counters = {}
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.rule = ""
        self.dir = os.path.join(BUILD, "run", prop)
        os.makedirs(self.dir, exist_ok=True)

    def note(self, msg):
        print("[%s %6.1fs] %s" % (self.prop, time.time() - self.t0, msg), flush=True)

    def viol(self, what, detail, **info):
        self.viols.append(dict(what=what, detail=detail, **info))

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def finish(self):
        cov = dict(evaluations=self.evals, distinct_nontrivial=self.distinct, rule=self.rule,
                   samples=self.samples[:8] or ["(none)"])
        if self.counters:
            cov["observed"] = self.counters
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viols))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if self.viols:
            d = os.path.join(BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            shown = set()
            for i, v in enumerate(self.viols[:12]):
                p = os.path.join(d, "%s-%d.json" % (self.prop, i))
                v = dict(v, property=self.prop, seed=self.seed, tier=self.tier,
                         replay="cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s%s" % (
                             self.seed, self.tier, self.prop, " --only %s" % v["enum"] if v.get("enum") else ""))
                with open(p, "w") as f:
                    json.dump(v, f, indent=1)
                self.note("violated: %s%s: %s" % (v["what"], " [%s]" % v["enum"] if v.get("enum") else "", str(v["detail"])[:700]))
                if v["what"] not in shown or i == 0:
                    print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
                    shown.add(v["what"])
            sys.exit(1)
        if self.evals == 0 or self.distinct == 0:
            raise Inconclusive("the run observed nothing")
        self.note("held on %d cases (%d distinct and non-trivial)" % (self.evals, self.distinct))
        sys.exit(0)


# ------------------------------------------------------------------ building

def json_lines(text):
    for l in text.splitlines():
        l = l.strip()
        if l.startswith("{"):
            try:
                yield json.loads(l)
            except ValueError:
                pass


def span_lines(diag, fname):
    """All lines of `fname` a diagnostic refers to, directly or through macro expansions."""
    out = set()

    def span(s):
        while s:
            if os.path.basename(s.get("file_name", "")) == fname:
                out.add(s["line_start"])
            e = s.get("expansion")
            s = e.get("span") if e else None
    for s in diag.get("spans", []):
        span(s)
    for ch in diag.get("children", []):
        for s in ch.get("spans", []):
            span(s)
    return out


def cargo(args, env, timeout=800):
    p = subprocess.run(["cargo"] + args, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, errors="replace", timeout=timeout)
    return p


class BuildFailed(Exception):
    def __init__(self, diags, stderr):
        self.diags, self.stderr = diags, stderr


def cargo_bin(binname, features, env, release=False, toolchain=None, extra=()):
    """Builds a harness binary; returns its path, or raises BuildFailed with its diagnostics."""
    a = (["+" + toolchain] if toolchain else []) + ["build", "--offline", "--bin", binname, "--message-format=json"]
    feats = [f for f in features if f != "-alloc"]
    if len(feats) < len(features):
        a += ["--no-default-features"]
    if feats:
        a += ["--features", ",".join(feats)]
    if release:
        a += ["--profile", release if isinstance(release, str) else "release"]
    try:
        p = cargo(a + list(extra), env)
    except subprocess.TimeoutExpired:
        raise Inconclusive("the build timed out")
    diags, exe = [], None
    for j in json_lines(p.stdout):
        if j.get("reason") == "compiler-artifact" and j.get("executable") and j["target"]["name"] == binname:
            exe = j["executable"]
        if j.get("reason") == "compiler-message" and j["message"].get("level", "").startswith("error"):
            diags.append((j["target"]["name"], j["message"]))
    if p.returncode != 0 or not exe:
        raise BuildFailed(diags, p.stderr)
    return exe


def zoo_dir(run, shapes, extra=None, sub="zoo"):
    d = os.path.join(run.dir, sub)
    os.makedirs(d, exist_ok=True)
    files = {"zoo.rs": gen.zoo_source(shapes)}
    files.update(extra(shapes) if extra else {})
    for n, s in files.items():
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p).read() != s:
            with open(p, "w") as f:
                f.write(s)
    return d, files


def owner_of(src, line):
    """The shape whose generated text contains this line: the text names it `// @shape NAME`."""
    ls = src.splitlines()
    for i in range(min(line, len(ls)) - 1, -1, -1):
        m = re.match(r"\s*// @shape (\w+)", ls[i])
        if m:
            return m.group(1)
        if ls[i].startswith("// @end"):
            return None
    return None


# unsatisfied bounds, no such method or associated item, no such operator, not a constant function
API_CODES = {"E0277", "E0599", "E0369", "E0271", "E0015", "E0600", "E0368"}


def build_with_zoo(run, binname, shapes, features=(), extra=None, release=False, toolchain=None, rustflags=None,
                   target_dir="target", compile_is_violation=False, cargo_extra=(), env_extra=None, sub="zoo"):
    """Builds a monitor over the given shapes. A shape whose generated code does not compile is
    taken out, reported (as a violation where the property includes compiling), and the rest is
    built. A harness that does not compile for another reason is inconclusive."""
    shapes = list(shapes)
    dropped = []
    for attempt in range(6):
        d, files = zoo_dir(run, shapes, extra, sub)
        env = clean_env(VERIF_ZOO=d, CARGO_TARGET_DIR=os.path.join(BUILD, target_dir), **(env_extra or {}))
        if rustflags:
            env["RUSTFLAGS"] = rustflags
        try:
            exe = cargo_bin(binname, list(features), env, release, toolchain, cargo_extra)
            return exe, shapes, dropped
        except BuildFailed as e:
            bad = {}
            for target, msg in e.diags:
                if target in ("enumset", "enumset_derive"):
                    raise Inconclusive("%s does not build: %s" % (target, msg.get("rendered", "")[:1500]))
                for fn, src in files.items():
                    for line in span_lines(msg, fn):
                        o = owner_of(src, line)
                        if o:
                            bad.setdefault(o, msg.get("rendered", "")[:1500])
            bad = {k: v for k, v in bad.items() if k in {s.name for s in shapes}}
            if not bad:
                # the monitor itself only uses the documented interface, in generic code
                for target, msg in e.diags:
                    at = [x["file_name"] for x in msg.get("spans", []) if x.get("is_primary")]
                    if target == binname and at and all(a.endswith("src/bin/%s.rs" % binname) for a in at) and (msg.get("code") or {}).get("code") in API_CODES:
                        run.viol("a documented operation is not there", msg.get("rendered", "")[:1500])
                raise Inconclusive("the harness does not build: %s %s" % (
                    "".join(m.get("rendered", "")[:800] for _, m in e.diags[:3]), e.stderr[-1500:] if not e.diags else ""))
            for s in shapes:
                if s.name in bad:
                    dropped.append((s, bad[s.name]))
                    run.note("does not compile: %s" % s.definition())
                    if compile_is_violation:
                        run.viol("a documented enum or constant does not compile", bad[s.name], enum=s.name, src=s.definition())
            shapes = [s for s in shapes if s.name not in bad]
            if not shapes:
                raise Inconclusive("no enum of the zoo compiles")
    raise Inconclusive("the harness does not build")


# ------------------------------------------------------------------ running

def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


CRASHES = {signal.SIGSEGV: "SIGSEGV", signal.SIGILL: "SIGILL", signal.SIGABRT: "SIGABRT", signal.SIGBUS: "SIGBUS",
           signal.SIGFPE: "SIGFPE", signal.SIGTRAP: "SIGTRAP"}


def execute(cmd, env, timeout, cwd=None):
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=timeout, preexec_fn=limits, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise Inconclusive("a run of %s timed out after %d s" % (os.path.basename(cmd[0]), timeout))
    return p


def absorb(run, out, label=None):
    """Adds the log of a monitor to the run; returns (ended, started-but-not-done enums, hang)."""
    open_ = []
    ended = hang = False
    for j in json_lines(out):
        t = j.get("t")
        if t == "start":
            open_.append(j["enum"])
        elif t == "done":
            if j["enum"] in open_:
                open_.remove(j["enum"])
            run.evals += j["evals"]
            run.distinct += j["distinct"]
            for k, v in j["counters"].items():
                run.count(k, v)
            run._samples = getattr(run, "_samples", [])
            run._samples += j["samples"]
        elif t == "viol":
            run.viol(j["what"], j["detail"], enum=j["enum"], src=j["src"], **({"build": label} if label else {}))
        elif t == "end":
            ended = True
        elif t == "hang":
            hang = True
    return ended, open_, hang


def monitor(run, exe, scale, label=None, timeout=780, salt=0, env_extra=None, asan=False):
    """Runs a monitor binary and takes over its log; a crash or endless call is a violation."""
    seed = run.seed + 1000003 * salt
    base = dict(VH_SEED=seed, VH_SCALE=scale)
    base.update(env_extra or {})
    if run.only:
        base["VH_ONLY"] = run.only
    p = execute([exe], clean_env(**base), timeout)
    ended, open_, hang = absorb(run, p.stdout, label)
    if ended and p.returncode == 0:
        return
    if ended is False and (p.returncode < 0 or hang or asan):
        sig = -p.returncode if p.returncode < 0 else 0
        if sig in (signal.SIGKILL, signal.SIGTERM):
            raise Inconclusive("the monitor was killed (signal %d)" % sig)
        # find the enum: run the unfinished ones again, one at a time
        for name in open_[:16]:
            q = execute([exe], clean_env(**dict(base, VH_ONLY=name, VH_THREADS=1)), timeout)
            r2 = type("Tmp", (), {})()
            lines = [j for j in json_lines(q.stdout)]
            if any(j.get("t") == "end" for j in lines) and q.returncode == 0:
                continue
            src = name
            if any(j.get("t") == "hang" for j in lines):
                run.viol("an operation does not terminate", "no operation of the workload completed for a long time, twice",
                         enum=name, **({"build": label} if label else {}))
            elif q.returncode < 0 and -q.returncode in CRASHES or asan:
                run.viol("the process crashed", "%s: %s" % (CRASHES.get(-q.returncode, q.returncode), q.stderr[-2500:]),
                         enum=name, **({"build": label} if label else {}))
            else:
                raise Inconclusive("the monitor ended with %d: %s" % (q.returncode, q.stderr[-800:]))
        if run.viols:
            return
        raise Inconclusive("the monitor failed once (%d, hang %s) but not when run again: %s" % (p.returncode, hang, p.stderr[-800:]))
    raise Inconclusive("the monitor ended with %d: %s" % (p.returncode, p.stderr[-1500:]))


def spread(samples, n=8):
    """A few samples spread over the run."""
    if len(samples) <= n:
        return samples
    return [samples[i * len(samples) // n] for i in range(n)]


# ------------------------------------------------------------------ interpretation (Miri)

SYSROOT_RULE = "the crate and the harness are interpreted; the Rust side of calls and memory is checked at every step"


def miri_env(sub, zoo, flags="", extra=None):
    e = clean_env(VERIF_ZOO=zoo, CARGO_TARGET_DIR=os.path.join(BUILD, "miri-target"), XDG_CACHE_HOME=os.path.join(BUILD, "miri-cache"),
                  MIRIFLAGS=("-Zmiri-disable-isolation " + flags).strip())
    e.update({k: str(v) for k, v in (extra or {}).items()})
    return e


def miri_setup(run, target=None):
    """Builds the interpreter's standard library (from the installed source, offline)."""
    env = clean_env(XDG_CACHE_HOME=os.path.join(BUILD, "miri-cache"), CARGO_TARGET_DIR=os.path.join(BUILD, "miri-target"))
    cmd = ["cargo", "+nightly", "miri", "setup"] + (["--target", target] if target else [])
    try:
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        raise Inconclusive("cargo miri setup timed out")
    if p.returncode:
        raise Inconclusive("cargo miri setup failed: " + p.stdout[-1500:])
    run.note("interpreter ready (%s)" % (target or "host"))


def miri(run, binname, shapes, scale=1, target=None, features=(), flags="", shards=8, extra=None, timeout=600, salt=0, label=None):
    """Runs a monitor under Miri, the enums split over processes. Undefined behaviour and violations
    reported by the monitor are violations; anything the interpreter does not support is inconclusive."""
    import threading
    label = label or "miri" + (" " + target if target else "")
    zoo, _ = zoo_dir(run, shapes, extra, "zoo-" + label.replace(" ", "-"))
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--bin", binname]
    if target:
        cmd += ["--target", target]
    if features:
        cmd += ["--features", ",".join(features)]
    base = dict(VH_SEED=run.seed + 1000003 * salt, VH_SCALE=scale)
    if run.only:
        base["VH_ONLY"] = run.only

    def start(**kw):
        try:
            return subprocess.run(cmd, cwd=HARNESS, env=miri_env(run, zoo, flags, dict(base, **kw)), stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired as e:
            return e
    p = start(VH_ONLY="-")
    if isinstance(p, subprocess.TimeoutExpired) or p.returncode or '"t":"end"' not in p.stdout:
        raise Inconclusive("the harness does not run under Miri: %s" % getattr(p, "stderr", "timeout")[-2500:])
    run.note("built %s for %s over %d enums" % (binname, label, len(shapes)))
    res = [None] * shards

    def go(i):
        res[i] = start(VH_SHARD="%d/%d" % (i, shards))
    th = [threading.Thread(target=go, args=(i,)) for i in range(shards)]
    [t.start() for t in th]
    [t.join() for t in th]
    slow = 0
    for p in res:
        out = p.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        ended, open_, hang = absorb(run, out, label)
        if isinstance(p, subprocess.TimeoutExpired):
            slow += 1
            continue
        if ended and p.returncode == 0:
            continue
        m = re.search(r"(?m)^error: (Undefined Behavior|memory leaked|abnormal termination|the main thread).*", p.stderr)
        if m and m.group(1) == "Undefined Behavior":
            src = {s.name: s.definition() for s in shapes}
            run.viol("undefined behaviour", p.stderr[m.start():m.start() + 2500], enum=open_[0] if open_ else "", build=label,
                     src=src.get(open_[0], "") if open_ else "")
        else:
            if run.viols:
                continue
            raise Inconclusive("%s ended with %d: %s" % (label, p.returncode, p.stderr[-2000:]))
    if slow and not run.viols:
        raise Inconclusive("%d of %d interpreter processes timed out" % (slow, shards))
    run.count("enums_interpreted_" + (target or "host").split("-")[0], len(shapes))


def c_library(run, name, src):
    """Compiles C sources of the harness into a static library; returns its directory."""
    d = run.dir
    o = os.path.join(d, name + ".o")
    a = os.path.join(d, "lib%s.a" % name)
    for cmd in (["gcc", "-std=gnu11", "-O2", "-fPIC", "-Wall", "-c", src, "-o", o], ["ar", "rcs", a, o]):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise Inconclusive("%s failed: %s" % (cmd[0], p.stdout[-1500:]))
    return d
