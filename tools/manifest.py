#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py and properties.jsonl (run by hand, not by the checks)."""
import json, os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from props import PROPS
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over %s, %s"
WHAT = {
 "C01": ("operation histories, interleavings and faults", "refinement against a reference vector/stack"),
 "C02": ("operation histories, interleavings and faults", "refinement against a reference deque/queue"),
 "C03": ("operation histories, interleavings and faults", "refinement against a reference trimmed deque"),
 "C04": ("operation histories, interleavings and faults", "refinement against a reference list"),
 "C05": ("operation histories, stream faults and rejections", "refinement against a reference string"),
 "C06": ("operation histories, interleavings, rejections and crash/restart images", "refinement against a reference ordered map"),
 "C07": ("operation histories, hash behaviour, interleavings and faults", "refinement against a reference map"),
 "C08": ("operation histories, interleavings and faults", "refinement against a reference map keyed by enumerator rank"),
 "C09": ("handle lifetimes against interleaved operations", "handle registry invariant"),
 "C10": ("misuse points in histories; a rejection abandons the task", "no-effect check against the reference and policy-call oracle"),
 "C11": ("histories with injected failures", "lifetime registry invariant"),
 "C12": ("injection point of a throwing element operation", "strong/basic guarantee against the reference"),
 "C13": ("histories with the allocator failing", "allocator seam and canary invariant"),
 "C14": ("crash/restart points keeping only the object's bytes", "refinement after restart and raw-view comparison"),
 "C15": ("task interleavings at every callback and task kills", "isolation against per-slot references"),
 "C16": ("copy/move points and failures in histories", "value-semantics reference"),
 "C17": ("histories and adversarial hash/order", "step budget per operation (bounded progress)"),
 "C18": ("single-pass sources that end early or fail", "source-consumption monitor and reference"),
 "C23": ("histories of bindings with rejected accesses, throwing comparisons and interleaved tasks", "identity reference model"),
 "C25": ("histories, rejections, throws and preemptions over element types that define &, comma, operator new, initializer-list and converting constructors", "the reference models of C01-C08 and C23"),
 "C24": ("histories of super and sub structs, arbitrary leftover memory and crash/restart relocation", "address-identity oracle"),
 "C19": ("streams that chunk, end, fail or throw at any character", "reference std::string on an identical stream"),
}
checks = []
for p in sorted(PROPS):
    a, b = WHAT[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH % (a, b),
        "level": "exploration",
        "level_note": "Seeded exploration: every run is a deterministic execution of the real headers against a small "
                      "reference model; a clean batch is evidence for the runs executed, not a proof. Trusts the "
                      "simulator (sim/), clang++-18 and libstdc++.",
    })
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks,
     "not_applicable": json.load(open(os.path.join(H, "not_applicable.json"))),
     "notes": "No hooks in /repo: the checking policy, element types, comparators, hashes, input sources, streams and "
              "the process allocator are seams that the library already has."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
