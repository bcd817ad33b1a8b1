#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only ENUM]: decides one property on /repo's tree."""
import os, subprocess, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib
from vlib import Inconclusive, Run, build_with_zoo, gen, monitor

# property: monitor, enum catalogue, features, number of random enums and workload for quick and thorough
MON = {
    "C01": dict(bin="c01", scale=(8, 60),
                rule="random histories of 60-120 updates over four registers of sets per enum, each step checked against a list-of-booleans model; a case is a step, distinct by (operation, sets before and after), non-trivial if the set was not empty or changed"),
    "C02": dict(bin="c02", scale=(5, 50),
                rule="pairs of sets (every pair for enums of up to 5 variants, otherwise related random pairs: equal, complementary, disjoint, sub/superset, one element or one word apart) and set/variant combinations; distinct by operands, non-trivial if no operand is empty"),
    "C03": dict(bin="c03", profile="serde", features=["formats"], scale=(12, 100),
                rule="chains of 30 producers of sets (constants, complement, algebra, updates, integer/array/slice/repr conversions and documents with undeclared bits, collections) feeding each other; a case is a produced set whose words, length, iteration, complement and equality are searched for undeclared members; distinct by (producer with arguments, members), non-trivial if not empty"),
    "C04": dict(bin="c04", scale=(8, 60),
                rule="sessions of iterator calls (next/next_back/nth/nth_back/find/position/adaptors/clones, mutation of the set meanwhile) on random sets against a VecDeque; every forward/backward interleaving of every set for enums of up to 6 variants; distinct by (members, calls), non-trivial if the set is not empty"),
    "C05": dict(bin="c05", scale=(8, 60), miri=[dict(profile="miri", target="i686-unknown-linux-gnu")],
                rule="(usize also for a 32-bit target, interpreted) conversions to/from six integer types: every single member, every single bit alone and on top of all declared bits, random masks with and without undeclared bits; distinct by (type, direction, value), non-trivial if not zero/empty"),
    "C06": dict(bin="c06", scale=(3, 20),
                rule="conversions to/from arrays of 14 lengths (0..33) and slices of every length up to 3 past the need and beyond, into destinations with old content; word lists with every word and boundary bit varied; distinct by (length, value), non-trivial if not all zero"),
    "C07": dict(bin="c07", scale=(8, 60),
                rule="sets with the same members produced by 19 different routes compared, hashed (recording hasher) and ordered; triples of related sets for the laws of a total order; hashed and ordered collections against a map keyed by membership; distinct by members and routes, non-trivial if not empty/equal"),
    "C08": dict(bin="c08", profile="ffi", compile=True, scale=(6, 60), extra="ffi", miri=[dict(profile="ffi-miri"), dict(profile="ffi-miri", target="i686-unknown-linux-gnu", thorough=True)],
                rule="sets crossing a C boundary by value, in structs, by pointer, in arrays, among many arguments and through callbacks; memory, size and alignment; as_repr in constants; every byte value, every single bit and random integers through the from_repr family; distinct by operands, non-trivial if not empty; interpreted by Miri with the integer's signature on the other side for the calling convention"),
    "C09": dict(bin="c09", profile="serde", features=["formats"], compile=True, scale=(30, 250),
                rule="sets (every one for enums of up to 6 variants, singles, random) written and read back through a recording token format in 2 x 16 modes, JSON, bincode and CBOR, nested in other data, with a failure injected at every serializer call; distinct by (enum, members), non-trivial if not empty"),
    "C10": dict(bin="c10", profile="serde", features=["formats"], compile=True, scale=(40, 300),
                rule="the data-model calls of serializing sets compared with the documented form, and documents in every accepted spelling (orders, repetitions, false entries, word lists of other lengths) read back; distinct by (members, kind of document), non-trivial if not empty"),
    "C11": dict(bin="c11", profile="serde", features=["formats"], compile=True, scale=(12, 120),
                rule="well-typed documents with and without unknown bits or variants judged accept/refuse/drop, mutated and random documents of every type, raw and mutated bytes of three formats, failures injected into the deserializer; distinct by document"),
    "C12": dict(bin="c12", compile=True, scale=(1, 1), random=(20, 60), extra="consts", extra_n=(16, 40),
                rule="constants and statics built by the six macros from variants, earlier constants and each other (up to 7 operands), new/empty/all/variant_count/bit_width in constants; each compared at run time with a model and with the run-time set, used as pattern and operand; distinct by (expression, members), non-trivial if not empty"),
    "C13": dict(bin="c13", profile="decl", compile=True, scale=(1, 1), random=(60, 300), extra="decl",
                rule="generated definitions within the documented limits (every option next to every other, every literal base, suffix and enum repr, attributes, cfg, raw and unicode names, huge discriminants), each compiled, then every variant, its neighbours, the metadata, the size and some 60 impls compared with the definition; distinct by (variant or impl, outcome)"),
    "C16": dict(bin="c16", scale=(3, 20),
                rule="Debug and Display of random sets under 37 format specifications, into writers that fail after every possible number of bytes, and with failing members, against the concatenation of the members' own rendering; distinct by (members, specification), non-trivial if the set is not empty"),
    "C17": dict(bin="c17", scale=(8, 60),
                rule="extend/collect/sum/partition/unzip over random sequences of variants and of sets with true, lying and absent size hints, adaptors, and iterators that panic at every position; distinct by (start, sequence), non-trivial if the sequence is not empty"),
}


def run_monitor(run, cfg):
    run.rule = cfg["rule"]
    q, t = cfg["scale"]
    profile = cfg.get("profile", "core")
    feats = cfg.get("features", [])
    rq, rt = cfg.get("random", (24, 70))
    # unoptimized with every assertion on; without assertions, overflow checks and the alloc feature; optimized
    rounds = [(q, rq, 0, "dev"), ((q + 1) // 2, rq // 2, 1, "plain")] if run.quick else [(t, rt, 0, "dev"), (t, rt, 1, "release"), (q, rt, 2, "plain")]
    env_extra = {"VH_FFI": vlib.c_library(run, "vhffi", os.path.join(vlib.HARNESS, "ffi.c"))} if cfg.get("extra") == "ffi" else {}
    gone = []
    for scale, nrand, salt, build in rounds:
        shapes = gen.shapes(profile, run.seed + 1000 * salt, nrand)
        n = cfg.get("extra_n", (1, 1))[0 if run.quick else 1]
        extra = {"consts": lambda shs: {"consts.rs": gen.const_programs(shs, run.seed + 1000 * salt, n)},
                 "ffi": lambda shs: {"ffi.rs": gen.ffi_source(shs)},
                 "decl": lambda shs: {"decl.rs": gen.decl_source(shs)}}.get(cfg.get("extra"))
        exe, kept, dropped = build_with_zoo(run, cfg["bin"], shapes, list(feats) + ["-alloc"] * (build == "plain"), release=build,
                                            compile_is_violation=cfg.get("compile", False), extra=extra, env_extra=env_extra)
        run.count("enums", len(kept))
        gone += dropped
        run.note("built %s over %d enums%s" % (cfg["bin"], len(kept), {"release": " (optimized)", "plain": " (no assertions, no alloc)"}.get(build, "")))
        monitor(run, exe, scale, label={"dev": "debug"}.get(build, build), salt=salt)
    if gone:
        run.extra["enums_not_compiling"] = [s.name for s, _ in gone]
    for m in cfg.get("miri", []):
        if m.get("thorough") and run.quick:
            continue
        vlib.miri_setup(run, m.get("target"))
        bad = {d[0].definition().replace(d[0].name, "") for d in gone}
        shapes = [s for s in gen.shapes(m["profile"], run.seed, m.get("random", 0)) if s.definition().replace(s.name, "") not in bad]
        vlib.miri(run, cfg["bin"], shapes, m.get("scale", 1), m.get("target"), feats, extra=extra)
    run.samples = vlib.spread(getattr(run, "_samples", []))


def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--only":
            only = a.pop(0)
        else:
            sys.exit("unknown argument " + x)
    run = Run(prop, tier, int(os.environ.get("VERIF_SEED", "1")), only)
    try:
        if prop in MON:
            run_monitor(run, MON[prop])
        else:
            import special
            getattr(special, prop.lower())(run)
        run.finish()
    except Inconclusive as e:
        if run.viols:
            run.finish()
        print("INCONCLUSIVE property=%s: %s" % (prop, e), flush=True)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("INCONCLUSIVE property=%s: timeout %s" % (prop, e), flush=True)
        sys.exit(2)


if __name__ == "__main__":
    main()
