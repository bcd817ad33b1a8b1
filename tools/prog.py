"""Compiling (and running) many small programs against the crate as built by cargo from /repo's tree."""
import concurrent.futures, json, os, resource, shutil, signal, subprocess
import vlib
from vlib import BUILD, ROOT, Inconclusive, clean_env, json_lines

ENVS = os.path.join(ROOT, "envs")


class Libs:
    def __init__(self, features, externs, dirs):
        self.features, self.externs, self.dirs = features, externs, dirs

    def flags(self, names):
        """--extern flags; `names` maps the name a program uses to the crate it means."""
        out = []
        for d in self.dirs:
            out += ["-L", "dependency=" + d]
        for used, crate in names.items():
            if crate not in self.externs:
                raise Inconclusive("crate %s was not built for features %s" % (crate, self.features))
            out += ["--extern", "%s=%s" % (used, self.externs[crate])]
        return out


def libs(run, features, release=False, panic_abort=False):
    """Builds the crate with these features ('serde', 'alloc', 'pmc', 'json')."""
    env = clean_env(CARGO_TARGET_DIR=os.path.join(BUILD, "target-envs"))
    if panic_abort:
        env["CARGO_PROFILE_DEV_PANIC"] = "abort"
    cmd = ["cargo", "build", "--offline", "--message-format=json"] + (["--features", ",".join(features)] if features else [])
    try:
        p = subprocess.run(cmd, cwd=ENVS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        raise Inconclusive("building the crate timed out")
    ex, dirs = {}, set()
    msgs = []
    for j in json_lines(p.stdout):
        if j.get("reason") == "compiler-artifact":
            for f in j["filenames"]:
                if f.endswith((".rlib", ".so")):
                    ex[j["target"]["name"].replace("-", "_")] = f
                    if "/deps/" in f:
                        dirs.add(os.path.dirname(f))
        if j.get("reason") == "compiler-message" and j["message"]["level"] == "error":
            msgs.append(j["message"]["rendered"])
    if p.returncode:
        raise BuildError("the crate does not build with features %s: %s" % (features or "none", "".join(msgs)[:2500] or p.stderr[-2500:]), bool(msgs))
    if "enumset" not in ex:
        raise Inconclusive("cargo did not report where it put the crate")
    # the top-level copy of an rlib has no hash: the one under deps is what rustc resolves
    d = os.path.join(BUILD, "target-envs", "debug", "deps")
    return Libs(tuple(features), ex, sorted(dirs | {d}))


class BuildError(Exception):
    def __init__(self, msg, diag):
        super().__init__(msg)
        self.diag = diag


class Result:
    """ok: accepted; exhausted: the compiler neither accepted nor refused it within its time and memory."""
    def __init__(self, ok, diags, raw, exe, exhausted=False):
        self.ok, self.diags, self.raw, self.exe, self.exhausted = ok, diags, raw, exe, exhausted

    def text(self, n=1500):
        return ("".join(d.get("rendered", "") for d in self.diags if d.get("level", "").startswith("error")) or self.raw)[:n]


def compile(workdir, name, code, lib, names=None, edition="2021", crate_type="lib", emit="metadata", env=None, flags=(), toolchain=None, limit=None):
    """limit: (seconds, bytes) of the compiler; running into them is a result, otherwise inconclusive."""
    d = os.path.join(workdir, name)
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "main.rs")
    with open(src, "w") as f:
        f.write(code)
    out = os.path.join(d, "out" if emit == "link" else "out.rmeta")
    cmd = ["rustc"] + (["+" + toolchain] if toolchain else []) + [
        "--edition", edition, "--crate-type", crate_type, "--crate-name", "prog", "--emit", emit + "=" + out if emit != "link" else "link",
        "--error-format=json", "--cap-lints", "warn"] + (["-o", out] if emit == "link" else [])
    cmd += lib.flags(names if names is not None else {"enumset": "enumset"}) + list(flags) + [src]
    e = clean_env(**(env or {}))
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit[0] if limit else 300,
                           preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (limit[1], limit[1]))) if limit else None)
    except subprocess.TimeoutExpired:
        if limit:
            return Result(False, [], "time limit", out, True)
        raise Inconclusive("rustc timed out on %s" % src)
    diags = [j for j in json_lines(p.stderr) if j.get("$message_type", "diagnostic") == "diagnostic"]
    if limit and (p.returncode in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS) or "memory allocation of" in p.stderr):
        return Result(False, diags, p.stderr[-1500:], out, True)
    if p.returncode < 0:
        raise Inconclusive("rustc was killed (%d) on %s" % (-p.returncode, src))
    return Result(p.returncode == 0, diags, p.stderr[-1500:], out)


def pool(jobs, workers=8):
    """Runs [(key, callable)] and yields (key, result)."""
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        fs = {ex.submit(f): k for k, f in jobs}
        for f in concurrent.futures.as_completed(fs):
            yield fs[f], f.result()


def scratch(run, name="progs"):
    d = os.path.join(run.dir, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d
