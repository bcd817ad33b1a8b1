#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Holds on the executions listed in the evidence, not for all executions; trusts rustc, the harness and, for the "
         "choice of enums, the generator. ")
NOTES = {
    "C01": ("runtime monitor: random update histories against an executable set model", "Every step of millions of random histories over ~115 enum layouts (every storage kind and word boundary) is compared with a list-of-booleans model, including return values, arguments, aliases and earlier copies."),
    "C02": ("runtime monitor: algebra and relation oracles, exhaustive on small enums", "All spellings of all operations on every pair of sets of small enums and on related random pairs of large ones, judged by the membership the operands report."),
    "C03": ("runtime monitor: invariant on the bits of every set ever produced", "Chains of arbitrary producers, fed with undeclared bits wherever an input allows it; after every step the numeric and in-memory forms are searched for undeclared bits."),
    "C04": ("runtime monitor: iterator sessions against a deque model", "Every interleaving on small enums, random sessions with clones, adaptors and huge arguments elsewhere; sizes checked after every call."),
    "C05": ("runtime monitor: conversion oracle over generated numbers and sets (also interpreted for a 32-bit target)", "Every bit position of every integer type, alone and combined, both directions, checked/panicking/truncating/unchecked; usize also on a 32-bit target under Miri."),
    "C06": ("runtime monitor: conversion oracle over generated word lists, with dirty and guarded buffers", "All lengths around each enum's need and far beyond, every word and boundary bit varied, destination contents observed on success and failure."),
    "C07": ("runtime monitor: congruence and order laws on sets produced by many routes, recording hasher", "Equal sets by 19 routes must be equal, hash equally and order equally; order laws on triples; std collections against a model."),
    "C08": ("runtime monitor: foreign (C) functions and interpreter observe the representation", "Values and pointers cross into compiled C code and back; sizes, alignment, bytes and calling convention are observed there and under Miri's ABI checks."),
    "C09": ("runtime monitor: recording serializer/deserializer and three real formats, round-trip oracle", "Every representation over every storage through a token format of our own (with fault injection), JSON, bincode and CBOR."),
    "C10": ("runtime monitor: recorded serializer calls against the documented data model", "The sequence of data-model calls is compared with the documentation; documents of every accepted spelling and of other versions of the enum are read back."),
    "C11": ("runtime monitor: hostile documents and injected deserializer faults, verdict oracle for unknown bits", "Structured, mutated and random documents of every type; panics, wrong verdicts on unknown bits and undeclared members are violations."),
    "C12": ("runtime monitor: compile-time evaluated constants compared with run-time results", "Thousands of generated constants and statics compiled against the current macros and compared at run time with a model and with the run-time operations."),
    "C13": ("runtime monitor: generated enum definitions compiled and observed against the Rust reference", "Hundreds of definitions within the documented limits must compile; everything the type reports is compared with the definition."),
    "C14": ("runtime monitor of the compiler: generated ill-formed programs and their well-formed twins", "Each ruled-out construct, in many variants, must be rejected while its closest permitted twin compiles."),
    "C15": ("undefined-behaviour interpreter (Miri) and AddressSanitizer over hostile workloads, variant-validity monitor", "Miri interprets workloads over every enum layout and interface on the host (thorough: 32-bit and big-endian too); a wide native workload runs under AddressSanitizer."),
    "C16": ("runtime monitor: formatting against members' own rendering, failing writers and members", "Every format flag, every failure position of the writer, failing members."),
    "C17": ("runtime monitor: hostile iterators against the union oracle", "Lying size hints, early and late panics, repetitions and adaptors, from random starting sets."),
    "C18": ("runtime monitor of built programs across feature sets and environments", "Generated programs are compiled and run under every feature combination, no_std, renamed crates and hostile scopes and must give the same output."),
}
import sys
claimed = sys.argv[1:] or sorted(NOTES)
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "Monitors use only the public interface of the crate: no hooks in /repo. Level exploration throughout: the family observes executions."}
for p in props:
    if p in claimed:
        t, n = NOTES[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p, "technique": t,
                            "level": "exploration", "level_note": n + " " + TRUST.strip()})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
