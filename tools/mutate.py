#!/usr/bin/env python3
"""Mutation trials: mutate.py make DIR N SEED | mutate.py filter DIR | mutate.py kill DIR [hours]

make writes N random one-place changes of /repo's sources as patches under DIR; filter keeps, in DIR/alive, those which
build and pass the existing tests (in scratch copies); kill applies each of these to /repo, runs the quick checks, those
nearest to the changed file first, until one of them catches it, undoes it, and writes DIR/result.json. No check uses this.
"""
import concurrent.futures, json, os, queue, random, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
ROOT = plant.ROOT
FILES = ["enumset/src/set.rs", "enumset/src/repr/array.rs", "enumset/src/repr/primitive.rs", "enumset/src/repr/mod.rs",
         "enumset/src/macros.rs", "enumset/src/traits.rs", "enumset/src/lib.rs", "enumset_derive/src/lib.rs"]
RULES = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" >= ", " > "), (r" > ", " >= "),
         (r" && ", " || "), (r" \|\| ", " && "), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "), (r" & ", " ^ "),
         (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r"\b64\b", "63"), (r"\b64\b", "65"), (r"\b128\b", "127"),
         (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[a-z_(#*])", ""),
         (r"(?<=\w)\.\.=", ".."), (r"(?<=[\w\)])\.\.(?=[\w])", "..="), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"leading_zeros", "trailing_zeros"),
         (r"trailing_zeros", "leading_zeros"), (r"\ball\(", "any("), (r"\bany\(", "all("), (r"\bSome\((\w+)\)$", "None"), (r"&= ", "|= "), (r"\|= ", "&= "),
         (r"\|= ", "^= "), (r" \+= ", " -= "), (r" -= ", " += "), (r" / ", " % "), (r" % ", " / "), (r"<< ", ">> "), (r">> ", "<< "), (r"\*other", "*self"),
         (r"wrapping_", "saturating_"), (r"\bu64\b", "u32"), (r"\bu128\b", "u64"), (r"is_subset", "is_superset"), (r"and_not", "$and"), (r"\.rev\(\)", ""),
         (r"ALL_BITS", "EMPTY"), (r"\bVARIANT_COUNT\b", "BIT_WIDTH"), (r"\bBIT_WIDTH\b", "VARIANT_COUNT"), (r"\breturn .*;", ";"),
         (r"next_back\(\)", "next()"), (r"\bnext\(\)", "next_back()"), (r"\?;", ".ok();"), (r"unwrap_or\(", "max("), (r"\bu32\b", "u16"), (r"\bu32\b", "u8"),
         (r"as usize", "as u8 as usize"), (r"as u64", "as u32 as u64"), (r"\$width", "8"), (r"\b(\d+)\b", "7"), (r"\[i\]", "[0]"), (r"\bcontains\(", "insert("),
         (r"count_ones", "count_zeros"), (r"#\[inline\(always\)\]", ""), (r"^(\s*)([a-z_\.\*]+(\(.*\)| [|&^+-]?= .*));$", r"\1"), (r"\bOk\(", "Err("), (r"::#core", "::core"),
         (r"#core::prelude::v1::", ""), (r"if (.*) \{$", r"if true {"), (r"if (.*) \{$", r"if false {"), (r"while (.*) \{$", r"while false {"), (r"\bcontinue;", "break;"), (r"\bbreak;", "")]


def sites():
    out = []
    for f in FILES:
        lines = open("/repo/" + f).read().split("\n")
        for n, l in enumerate(lines):
            t = l.strip()
            if not t or t.startswith("//") or t.startswith("#![") or t.startswith("use ") or t.startswith("#[doc"):
                continue
            code = l.split(" // ")[0]
            for r, (pat, rep) in enumerate(RULES):
                for m in re.finditer(pat, code):
                    new = l[:m.start()] + m.expand(rep) + l[m.end():]
                    if new != l:
                        out.append((f, n, l, new))
    return sorted(set(out))


def make(d, n, seed):
    os.makedirs(d, exist_ok=True)
    s = sites()
    rnd = random.Random(seed)
    # equally many from each file with a surplus for the big ones
    by = {}
    for x in s:
        by.setdefault(x[0], []).append(x)
    pick = []
    while len(pick) < n and any(by.values()):
        f = rnd.choices(list(by), [len(v) ** 0.7 for v in by.values()])[0]
        pick.append(by[f].pop(rnd.randrange(len(by[f]))))
    json.dump(pick, open(d + "/mutants.json", "w"))
    print(len(s), "sites,", len(pick), "picked")


def apply(root, m):
    p = os.path.join(root, m[0])
    lines = open(p).read().split("\n")
    assert lines[m[1]] == m[2], (m, lines[m[1]])
    lines[m[1]] = m[3]
    open(p, "w").write("\n".join(lines))


def filt(d):
    ms = json.load(open(d + "/mutants.json"))
    base = set(plant.passed(json.load(open("/opt/vp/BASELINE.json"))))
    wts = queue.Queue()
    for i in range(4):
        wts.put(10 + i)

    def one(k):
        i = wts.get()
        try:
            w, vp = plant.copy(i)
            apply(w, ms[k])
            rc, out = plant.sh(["bash", vp + "/build.sh"], w, timeout=400)
            if rc:
                return k, "build"
            plant.sh(["bash", vp + "/test.sh", vp + "/out.json"], w, timeout=120)
            try:
                res = set(plant.passed(json.load(open(vp + "/out.json"))))
            except Exception:
                return k, "tests"
            return k, "tests" if base - res else "alive"
        finally:
            wts.put(i)
    alive, cnt = [], {}
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for k, r in ex.map(one, range(len(ms))):
            cnt[r] = cnt.get(r, 0) + 1
            if r == "alive":
                alive.append(k)
                print(k, ms[k], flush=True)
                json.dump(alive, open(d + "/alive.json", "w"))
    print(cnt)


ORDER = {"set.rs": "C01 C02 C04 C05 C06 C08 C12 C16 C17 C07 C03 C09 C10 C11 C13 C14 C18 C15".split(),
         "array.rs": "C01 C04 C02 C06 C05 C07 C12 C15 C08 C03 C13 C09 C10 C11 C16 C17 C14 C18".split(),
         "macros.rs": "C12 C14 C18 C01 C13".split(), "enumset_derive": "C13 C14 C09 C11 C10 C12 C08 C18 C01 C02 C03 C04 C05 C06 C07 C16 C17 C15".split()}


def kill(d, hours):
    ms, alive = json.load(open(d + "/mutants.json")), json.load(open(d + "/alive.json"))
    rf = d + "/result.json"
    done = json.load(open(rf)) if os.path.exists(rf) else {}
    end = time.time() + hours * 3600
    for k in alive:
        if str(k) in done or time.time() > end:
            continue
        m = ms[k]
        order = next((ORDER[x] for x in ORDER if x in m[0]), ORDER["array.rs"])
        assert subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]) == b""
        try:
            apply("/repo", m)
            res = "SURVIVED"
            for p in order:
                r = subprocess.run(["python3", "check.py", p, "--tier", "quick"], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
                    res = p
                    break
                if r.returncode:
                    res = "rc%d %s" % (r.returncode, p)
        finally:
            subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        done[str(k)] = res
        json.dump(done, open(rf, "w"), indent=0)
        print(k, res, m[0], m[1] + 1, "\n   -", m[2].strip(), "\n   +", m[3].strip(), flush=True)


if __name__ == "__main__":
    c, d = sys.argv[1:3]
    if c == "make":
        make(d, int(sys.argv[3]), int(sys.argv[4]))
    elif c == "filter":
        filt(d)
    else:
        kill(d, float(sys.argv[3]) if len(sys.argv) > 3 else 1)
