#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import jobs as J

NOTE = {
    "C02": " The growth at 259 and 1032 keys is driven with known hashes plus keys of arbitrary hash; arbitrary hashes for all keys are covered by shrinking the size table inside the structure (skipped if the structure changes).",
    "C04": " An induction step over all valid trees of up to 15 nodes (and black height 3 with few red nodes) covers histories of any length on trees of that size; it looks inside the tree and is skipped if the structure changes.",
    "C05": " See C04 for the induction step; comparisons per lookup are counted through the public interface for up to 100 keys.",
    "C24": " Guarding is exact: the executor refuses any access to the queue's memory outside the lock.",
    "C25": " Threads are switched at lock operations; C24 justifies that.",
    "C26": " Threads are switched at lock operations; C24 justifies that.",
    "C27": " Timeout 0 (wait without limit) excluded. The arithmetic is decided for every 64-bit clock value and 32-bit timeout.",
    "C29": " No bound applies: all pointer-sized values.",
}
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if not J.jobs_for(p, "quick"):
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": "symbolic execution of the LLVM IR of /repo's sources; Z3 (bit-vectors) decides every branch, address and assertion",
        "level": "model_checking",
        "level_note": "Exhaustive within bounds: " + "; ".join(j["bounds"] for j in J.jobs_for(p, "quick")) + "." + NOTE.get(p, "") +
                      " Trusted: clang's IR, the executor (sampled paths are replayed natively), Z3, the stubs in lib/. A violation is reported only if it reproduces in natively compiled code.",
    })
json.dump({"version": 1, "setup_cmd": "make -s -C engine OUT=/verif/build && test -x build/vse", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the sources are compiled as they are, with -include lib/vp_interpose.h redirecting libc and pthread calls to stubs. Defects found and repaired: known-findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
