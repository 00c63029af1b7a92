#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys

os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ".")
import checks

props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "cd harness && CARGO_NET_OFFLINE=true cargo build --offline --bins",
    "checks": [],
    "not_applicable": [],
}
for p in props:
    if p not in checks.CHECKS:
        m["not_applicable"].append({"property": p, "reason": "the check is not built yet"})
        continue
    parts = checks.CHECKS[p]["parts"]
    mods = sorted({x.module for x in parts if type(x).__name__ != "K"})
    m["checks"].append({
        "property": p,
        "quick_cmd": "python3 check.py %s" % p,
        "thorough_cmd": "python3 check.py %s" % p,
        "technique": "TLA+ specification checked with TLC (%s), bound to the code by %s" % (
            ", ".join(mods), " and ".join(sorted({
                {"G": "replaying the generated behaviours into the code", "V": "validating recorded traces against the specification",
                 "M": "", "K": ""}[type(x).__name__] for x in parts if type(x).__name__ in "GV"}))),
        "level": "model_checking",
        "level_note": checks.CHECKS[p].get("note", "exhaustive within the constants of the configurations in spec/, sampled beyond them by the recorded traces"),
    })
json.dump(m, open("MANIFEST.json", "w"), indent=1)
