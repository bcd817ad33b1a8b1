"""Checks that are not one monitor over the zoo."""
import os, re
import vlib
from vlib import gen, Inconclusive


def asan(run, binname, shapes, scale, features=(), timeout=700, **kw):
    flags = "-Zsanitizer=address"
    exe, kept, dropped = vlib.build_with_zoo(run, binname, shapes, features, toolchain="nightly", rustflags=flags, target_dir="target-asan",
                                             cargo_extra=["--target", "x86_64-unknown-linux-gnu"], sub="zoo-asan-" + binname, **kw)
    run.note("built %s with AddressSanitizer over %d enums" % (binname, len(kept)))
    vlib.monitor(run, exe, scale, label="asan", timeout=timeout, asan=True,
                 env_extra=dict(ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1"))
    run.count("enums_under_asan_" + binname, len(kept))
    return kept


def c15(run):
    run.rule = ("tours of the whole interface on random sets: algebra, updates, iterator sessions, all conversions (checked and truncating with garbage, "
                "unchecked with declared bits), exactly sized slices, collections, text, serialization; interpreted by Miri for every enum layout "
                "and run natively under AddressSanitizer; distinct by set, non-trivial if not empty")
    run.assumptions = ["Miri models the unsafe semantics of the installed nightly compiler; AddressSanitizer sees memory errors only"]
    # native and sanitized: many enums, also settles which of them compile
    shapes = gen.shapes("core", run.seed, 16 if run.quick else 60)
    asan(run, "c15", shapes, 3 if run.quick else 12, timeout=700 if run.quick else 3000)
    if not run.quick:
        for b in ("c01", "c02", "c04", "c05", "c06", "c07", "c16", "c17"):
            asan(run, b, shapes, 2, timeout=3000)
        for b in ("c09", "c11", "c03"):
            asan(run, b, gen.shapes("serde", run.seed, 24), 4, ["formats"], timeout=3000)
    # interpreted
    shapes = gen.shapes("miri", run.seed, 9 if run.quick else 40)
    exe, kept, dropped = vlib.build_with_zoo(run, "c15", shapes, ["serde"], sub="zoo-native")
    vlib.monitor(run, exe, 1, label="debug")
    vlib.miri_setup(run)
    vlib.miri(run, "c15", kept, 1 if run.quick else 8, features=["serde"], timeout=560 if run.quick else 3000)
    if run.quick:       # the other byte order, on one enum per kind of layout
        one = [s for s in kept if s.name in ("MDense3", "M8", "M31", "M63", "M64", "MU16", "MU128", "MEu8", "MEu16", "MEu32", "MEC", "MEu128")]
        vlib.miri_setup(run, "s390x-unknown-linux-gnu")
        vlib.miri(run, "c15", one, 1, target="s390x-unknown-linux-gnu", features=["serde"], timeout=400)
    else:
        for target in ("i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"):
            vlib.miri_setup(run, target)
            vlib.miri(run, "c15", kept, 2, target=target, features=["serde"], timeout=3000)
        vlib.miri(run, "c15", kept, 2, features=["serde"], timeout=3000, flags="-Zmiri-tree-borrows -Zmiri-strict-provenance -Zmiri-symbolic-alignment-check", salt=1, label="miri strict")
        # the other monitors, interpreted (their oracles on a big-endian target as well)
        few = [s for s in kept if not s.name.startswith("Rand")]
        for b in ("c05",):
            vlib.miri(run, b, few, 1, target="s390x-unknown-linux-gnu", timeout=3000, label="miri s390x " + b)
    run.samples = vlib.spread(getattr(run, "_samples", []))


def c14(run):
    import prog, reject
    run.rule = ("pairs of a program the documentation rules out and its closest permitted twin (bad items, discriminants, options, representations that are too small, mixed enums "
                "in operators, methods, collections and macros, representation conversions, suppressed operators), each compiled against the current crate; the first must be "
                "refused, the second accepted; distinct by program text")
    n = 640 if run.quick else 4000
    cases = reject.cases(run.seed, n)
    feats = [[], ["serde"]] if run.quick else [[], ["serde"], ["alloc"], ["serde", "alloc", "pmc"]]
    lib = [prog.libs(run, f) for f in feats]
    d = prog.scratch(run)
    run.note("%d pairs" % len(cases))

    def job(i, what):
        fam, kind, bad, good = cases[i]
        l = lib[i % len(lib)]
        env = {"CARGO_MANIFEST_DIR": prog.ENVS}
        code = bad if what == "bad" else good
        names = {"enumset": "enumset"}
        if "serde" in l.features:
            code = code.replace("/*SERDE*/", ", serde::Serialize, serde::Deserialize")
            names["serde"] = "serde"
        r = prog.compile(d, "%d%s" % (i, what), code, l, names, env=env, limit=(100, 3 << 30) if what == "bad" else None)
        if what == "bad" and r.ok:      # an error may also come up when code is generated
            r = prog.compile(d, "%d%s" % (i, what), code + "\nfn main() { %s }\n" % ("f()" if "pub fn f() {" in code else ""), l, names, env=env, crate_type="bin", emit="link")
        return r
    res = dict(prog.pool([((i, w), (lambda i=i, w=w: job(i, w))) for i in range(len(cases)) for w in ("bad", "good")]))
    for i, (fam, kind, bad, good) in enumerate(cases):
        rb, rg = res[(i, "bad")], res[(i, "good")]
        run.evals += 2
        run.distinct += 1
        run.count(fam)
        where = "%s: %s (features %s)" % (fam, kind, ", ".join(lib[i % len(lib)].features) or "none")
        if rb.ok:
            run.viol("a program the documentation rules out compiles", "%s\n%s" % (where, bad))
        if rb.exhausted:
            run.viol("a program the documentation rules out is not refused", "%s\n%s\nthe compiler ran out of time or memory instead of refusing it: %s" % (where, bad, rb.raw))
        if not rg.ok:
            run.viol("a permitted program does not compile", "%s\n%s\n%s" % (where, good, rg.text()))
        if not rb.ok and rb.diags:
            run._samples = getattr(run, "_samples", [])
            run._samples.append("%s: %s -> %s" % (where, bad.split("\n", 2)[2].strip()[:160].replace("\n", " "), next(
                (x["message"] for x in rb.diags if x["level"] == "error"), "")[:140]))
    run.counters["messages"] = len({x["message"] for r in res.values() if not r.ok for x in r.diags if not r.exhausted and x["level"] == "error"})
    run.samples = vlib.spread(getattr(run, "_samples", []))


FEATURE_SETS = [[], ["serde"], ["alloc"], ["pmc"], ["json"], ["json", "alloc", "pmc"], ["std"], ["serde", "alloc"], ["serde", "pmc"], ["alloc", "pmc"], ["std", "serde"]]


def c18(run):
    import prog, envgen
    run.rule = ("programs with a catalogue of enums (every storage kind x serialized form) deriving and using the crate in one environment each (imports, nesting, visibility, edition, "
                "renamed crate by crate_name or Cargo.toml, no_std linked without std or allocator, scopes full of items named like prelude, std, serde and enumset ones, awkward "
                "enum and variant names, function bodies and macros), built under every feature set, run, and their output compared with a model; a case is a program, distinct by text")
    d = prog.scratch(run)
    sets = FEATURE_SETS[:7] if run.quick else FEATURE_SETS
    jobs, info = [], {}
    for feats in sets:
        try:
            lib = prog.libs(run, feats)
        except prog.BuildError as e:
            if not e.diag:
                raise Inconclusive(str(e))
            run.viol("the crate does not build with a feature set", str(e))
            continue
        run.count("feature_sets")
        for i, p in enumerate(envgen.programs(run.seed, feats, run.quick)):
            info[(tuple(feats), i)] = p
            jobs.append(((tuple(feats), i), lambda p=p, lib=lib, i=i, feats=feats: one_env(run, d, p, lib, "%s-%d" % ("+".join(feats) or "none", i))))
    run.note("%d programs under %d feature sets" % (len(jobs), len(sets)))
    for key, (bad, lines) in prog.pool(jobs):
        p = info[key]
        run.evals += 1
        run.distinct += 1
        run.count(p.kind)
        run.count("output_lines", lines)
        where = "%s, features %s, edition %s, program %s" % (p.kind, ", ".join(key[0]) or "none", p.edition, os.path.join(d, "%s-%d" % ("+".join(key[0]) or "none", key[1]), "main.rs"))
        if bad:
            run.viol(bad[0], "%s\n%s" % (where, bad[1]), program=p.code)
        run._samples = getattr(run, "_samples", [])
        run._samples.append("%s: %d lines of output, e.g. %s" % (where, lines, p.expected[len(p.expected) // 2]))
    run.samples = vlib.spread(run._samples)


def one_env(run, d, p, lib, name):
    """Builds and runs one program; returns (violation or None, output lines)."""
    import prog
    env = {}
    if p.manifest or "pmc" in lib.features or "std" in lib.features:
        md = os.path.join(d, name)
        os.makedirs(md, exist_ok=True)
        with open(os.path.join(md, "Cargo.toml"), "w") as f:
            f.write(p.manifest or '[package]\nname = "prog"\nversion = "0.1.0"\n[dependencies]\nenumset = "1"\n')
        env["CARGO_MANIFEST_DIR"] = md
    flags = ["-C", "debuginfo=0"] + (["-C", "panic=abort"] if p.no_std else [])
    r = prog.compile(d, name, p.code, lib, p.names, p.edition, "bin", "link", env, flags)
    if not r.ok:
        return ("a program does not compile in a documented environment", r.text(2500)), 0
    q = vlib.execute([r.exe], vlib.clean_env(), 60)
    try:
        os.remove(r.exe)
    except OSError:
        pass
    got = q.stdout.splitlines()
    if q.returncode:
        return ("a program fails in a documented environment", "exit %d: %s" % (q.returncode, q.stderr[-1500:])), len(got)
    for i in range(max(len(got), len(p.expected))):
        g = got[i] if i < len(got) else "(nothing)"
        e = p.expected[i] if i < len(p.expected) else "(nothing)"
        if g != e and not (e.endswith("*") and g.startswith(e[:-1])):
            return ("a program gives another result in a documented environment", "line %d: %r, should be %r" % (i, g, e)), len(got)
    return None, len(got)
