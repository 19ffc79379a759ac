#!/usr/bin/env python3
"""Source of MANIFEST.json (run to regenerate it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
CLAIM = set(props)
NA = {}
NOTE = {
    "C20": "Bounded: all TLC-generated behaviours of spec/RecyclePolicy.tla up to a depth, replayed on every supported collection type of the real crate, plus larger random sizes; the recorded traces are validated by TLC against the specification.",
    "*": "Bounded: small programs over the public API, all schedules up to a number of preemptions plus random ones, stale loads in part of them; "
         "every history the triage does not accept, and a sample of the others, is decided by TLC against spec/Channel.tla. Trusted: TLC, the harness runtime (scheduler, "
         "memory model, allocator), the shim in src/verif.rs.",
}
checks = []
for p in props:
    if p in CLAIM:
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "python3 check.py %s --thorough" % p,
            "technique": "TLA+ specification (TLC): design models checked exhaustively within bounds, and histories recorded from the real code under a controlled scheduler validated against the specification",
            "level": "model_checking",
            "level_note": NOTE.get(p, NOTE["*"]),
        })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "hooks": {"guard": "--cfg thingbuf_verif", "enable": "RUSTFLAGS='--cfg thingbuf_verif' cargo build in /verif/harness (vlib/tv.py build)", "source_commits": ["adb1fe8", "f3e3ef1"]},
    "checks": checks,
    "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p not in CLAIM],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
