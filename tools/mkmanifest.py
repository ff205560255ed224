#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = ("TLA+ reference semantics (spec/ArrayString.tla) model checked with TLC; its calls are enumerated with TLC and executed on the real library "
        "from several histories each; recorded histories of the real library (debug and release) are validated line by line by TLC (spec/Judge.tla)")
NOTE = ("Model laws: exhaustive over all calls in small domains. Conformance: exhaustive over the enumerated calls (small capacities and their lifts to capacities 63, 127/128, 255), "
        "sampled (seeded) beyond, over all 255 capacities, histories of 40-60 calls. Trusted: rustc, std, TLC, and the harness's recording of what the public API returns.")
T = {
 "C14": ("TLA+ model of a table (spec/Db.tla) checked with TLC; its histories are executed through Diesel on in-memory SQLite and, with random ones, validated by TLC (spec/DbJudge.tla)",
         "All histories of two writes over a small domain (a seed-dependent sample of them in the quick tier) with all ways of reading after them, plus random histories. SQLite only: no other backend can run here. Columns hold well-formed UTF-8."),
 "C15": ("TLA+ specification of layout, filling and availability (spec/Capacity.tla); events from every capacity and compile probes judged by TLC",
         "Exhaustive over capacities 1..255 for layout, availability and texts of length N-4..N+5 in five shapes; capacities beyond are probed by compiling against the library: 0, 256..300 and powers of two and neighbours up to 2^64-1. On this target (64 bit)."),
 "C16": ("lockstep trace validation (spec/Pair.tla, TLC) of CacheString against ArrayString<63>, and of CacheString against the TLA+ reference semantics",
         "Sampled histories in debug, release and all-features builds, plus all enumerated calls at capacity 63 on CacheString."),
 "C17": ("lockstep trace validation (spec/Pair.tla, TLC) of the same histories recorded from all builds, over the TLA+ reference semantics",
         "Builds: {debug, release} x {std, no std, std+logs (enabled at trace level)}, debug std+serde, debug std+no-panic, release std+logs+serde+diesel (logger listening, and not); thorough also fully optimised (opt-level 3, LTO). Sampled histories; volume compared event by event, differing histories decided by TLC. A release build with no-panic does not link with this compiler and is not part of the matrix."),
 "C20": ("TLA+ specification of error values (spec/Errors.tla); all conversions and pairs recorded and judged by TLC",
         "Exhaustive over kinds and conversions (a handful of representatives of each standard library error)."),
}
checks = []
for i in range(1, 22):
    p = "C%02d" % i
    t, n = T.get(p, (HIST, NOTE))
    if p in ("C01", "C09", "C12"):
        t += "; small programs over the public API are offered to rustc and the verdicts judged by TLC (spec/Programs.tla)"
    checks.append(dict(property=p, quick_cmd="bin/check %s --tier quick" % p, thorough_cmd="bin/check %s --tier thorough" % p,
                       technique=t, level="model_checking", level_note=n))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=[],
               notes="No hooks in /repo: everything is observed through the public API. DESIGN.md describes the specification, the conformance machinery and the planted bugs."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
