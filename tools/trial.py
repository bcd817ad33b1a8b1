#!/usr/bin/env python3
"""trial.py [--all] [--seed N] [--tier T] [id ...]: runs the checks against planted bugs, in /repo, undoing each."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allp = "--all" in args
def opt(n, d):
    return args[args.index(n) + 1] if n in args else d
seed, tier = opt("--seed", "1"), opt("--tier", "quick")
ids = [a for i, a in enumerate(args) if not a.startswith("--") and (i == 0 or args[i - 1] not in ("--seed", "--tier"))]
props = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
for b in ids or sorted(os.listdir(ROOT + "/seeded")):
    d = ROOT + "/seeded/" + b
    meta = json.load(open(d + "/meta.json"))
    assert subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]) == b""
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        res = {}
        for p in props if allp else [meta["property"]]:
            t = time.time()
            r = subprocess.run(["python3", "check.py", p, "--tier", tier], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER=tier))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
            res[p] = "caught" if r.returncode == 1 and v else "rc=%d" % r.returncode
            if not allp:
                print(b, res[p], "%.0fs" % (time.time() - t), (r.stdout.strip().splitlines() or [""])[-1][:150] if res[p] != "caught" else "", flush=True)
        if allp:
            print(b, meta["property"], "CAUGHT" if res[meta["property"]] == "caught" else "MISSED", "by:", *[p for p in res if res[p] == "caught"], "| odd:", *["%s:%s" % (p, res[p]) for p in res if res[p] not in ("caught", "rc=0")], flush=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
