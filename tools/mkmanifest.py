#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("The TLA+ machine of spec/Cyaml.tla (byte-accurate heap, load/save/copy state stacks, anchors, callbacks, allocation budgets) is the oracle; "
        "TLC validates recorded histories of the real library, built from /repo with ASan and UBSan, against it: every result, output, heap byte, "
        "callback, message and emitted event a client can observe. Bounded by the schemas, documents and histories explored in a run; "
        "trusts TLC, libyaml's scanner and emitter, the C library's strtod, and the harness.")
EXTRA = {
    "C03": "Allocation failures are exhaustive per call explored: each allocation of the call is refused in turn (once, and from there on).",
    "C21": "Threads run the same histories at once; also under ThreadSanitizer. Interleavings are those the scheduler gave.",
    "C22": "Failures of the file system are made with /dev/full, file size limits, missing directories and unreadable paths.",
    "C24": "Arbitrary bytes: libyaml's own verdict (events or an error) is the environment of the machine.",
}
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
                       technique="TLA+ specification, model checked with TLC and bound to the code by trace validation", level="model_checking",
                       level_note=(EXTRA.get(i, "") + " " + NOTE).strip()))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[],
         notes="python3 tools/check.py replay FILE runs a reported history again. KNOWN_FINDINGS lists the defects repaired.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
