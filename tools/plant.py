#!/usr/bin/env python3
"""Makes planted bugs from tools/plants.py: plant.py [id ...]

Each is tried in a scratch copy of /repo: the change must build and pass the existing tests, its demonstration must
fail with it and pass without. Only then is /verif/seeded/<id>/ written. No check uses this.
"""
import concurrent.futures, json, os, queue, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"

DEMO = r'''#!/bin/bash
# Run with cwd /repo: 0 when the crate behaves, nonzero when it does not.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/demo.rs" "$w/src/main.rs" && cp Cargo.lock "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
%(name)s = { path = "$PWD/enumset"%(features)s }
%(deps)sEND
export CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true
cd "$w" && %(run)s
'''
BAD = r'''#!/bin/bash
# Run with cwd /repo: good.rs has to compile, bad.rs has to be refused.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp Cargo.lock "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
%(name)s = { path = "$PWD/enumset"%(features)s }
%(deps)sEND
export CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true
cd "$w"
cp "$here/good.rs" src/main.rs; cargo build --offline || exit 2
cp "$here/bad.rs" src/main.rs; cargo build --offline && { echo "bad.rs was accepted"; exit 1; }
exit 0
'''
DEPS = {"serde": 'serde = { version = "1", features = ["derive"] }\n', "serde_json": 'serde_json = "1"\n',
        "bincode": 'bincode = { version = "1", features = ["i128"] }\n'}


def sh(cmd, cwd, log=None, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def copy(i):
    d = "%s/wt%d" % (W, i)
    if not os.path.isdir(d):
        os.makedirs(W, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", d])
    subprocess.check_call(["git", "-C", d, "checkout", "-q", "-f", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()])
    vp = "%s/vp%d" % (W, i)
    os.makedirs(vp, exist_ok=True)
    for f in ("build.sh", "test.sh", "env.sh", "results.py"):
        s = open("/opt/vp/" + f).read().replace("/opt/vp/env.sh", vp + "/env.sh").replace("/opt/vp/logs", vp + "/logs").replace("cd /repo", "cd " + d).replace("/opt/vp/results.py", vp + "/results.py")
        open(vp + "/" + f, "w").write(s)
    return d, vp


def write_demo(dst, s):
    os.makedirs(dst, exist_ok=True)
    feats = s.get("features", [])
    vals = dict(name=s.get("rename", "enumset"), features=(', package = "enumset"' if "rename" in s else "") + (", features = %s" % json.dumps(feats) if feats else ""), deps="".join(DEPS[d] for d in s.get("deps", [])), run=s.get("run", "cargo run --offline"))
    if "bad" in s:
        open(dst + "/demo.sh", "w").write(BAD % vals)
        open(dst + "/bad.rs", "w").write(s["bad"].lstrip())
        open(dst + "/good.rs", "w").write(s["good"].lstrip())
    else:
        open(dst + "/demo.sh", "w").write(DEMO % vals)
        open(dst + "/demo.rs", "w").write(s["demo"].lstrip())
    os.chmod(dst + "/demo.sh", 0o755)


def try_one(s, wts):
    i = wts.get()
    try:
        d, vp = copy(i)
        for f, old, new in s["edits"]:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], "EDIT: %d occurrences in %s of %r" % (t.count(old), f, old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
        tmp = "%s/demo-%s" % (W, s["id"])
        shutil.rmtree(tmp, ignore_errors=True)
        write_demo(tmp, s)
        rc, out = sh(["bash", tmp + "/demo.sh"], "/repo", timeout=300)
        if rc != 0:
            return s["id"], "DEMO fails on the clean tree (%d): %s" % (rc, out[-1500:])
        rc, out = sh(["bash", vp + "/build.sh"], d)
        if rc:
            return s["id"], "BUILD: " + out[-2500:]
        rc, dout = sh(["bash", tmp + "/demo.sh"], d, timeout=300)
        if rc == 0:
            return s["id"], "DEMO passes with the change"
        if s.get("bad") and rc != 1 or "could not compile `demo`" in dout and not s.get("nocompile"):
            return s["id"], "DEMO does not compile with the change: " + dout[-2500:]
        rc, out = sh(["bash", vp + "/test.sh", vp + "/out.json"], d)
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open(vp + "/out.json"))
        ok = set(passed(res)); need = set(passed(base))
        missing = sorted(need - ok)
        if missing:
            return s["id"], "TESTS: %d stable tests fail: %s" % (len(missing), missing[:4])
        dst = os.path.join(ROOT, "seeded", s["id"])
        shutil.rmtree(dst, ignore_errors=True)
        write_demo(dst, s)
        open(dst + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        return s["id"], "KEPT: " + " ".join(dout.strip().splitlines()[-3:])[:160]
    finally:
        subprocess.call(["git", "-C", "%s/wt%d" % (W, i), "checkout", "-q", "-f", "."])
        wts.put(i)


def passed(j):
    if isinstance(j, dict):
        for k in ("stable", "passed", "pass"):
            if k in j:
                return j[k] if isinstance(j[k], list) else list(j[k])
        if "tests" in j:
            j = j["tests"]
        return [k for k, v in j.items() if v in ("pass", "passed", "PASS", True)]
    raise SystemExit("unknown results format")


if __name__ == "__main__":
    import plants
    want = set(sys.argv[1:])
    specs = [s for s in plants.BUGS if (s["id"] in want if want else not os.path.exists(os.path.join(ROOT, "seeded", s["id"], "patch.diff")))]
    n = 3
    wts = queue.Queue()
    for i in range(n):
        wts.put(i)
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for f in concurrent.futures.as_completed([ex.submit(try_one, s, wts) for s in specs]):
            print(*f.result(), sep=": ", flush=True)
