#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/checks.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
sys.dont_write_bytecode = True
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    c = CHECKS.get(i)
    if not c:
        na.append(dict(property=i, reason="no specification has been built for this property yet"))
        continue
    mods = sorted(set(x["module"] for x in c["parts"]))
    kinds = set(x["kind"] for x in c["parts"])
    how = []
    if "gen" in kinds: how.append("behaviours enumerated by TLC replayed in the library")
    if "trace" in kinds: how.append("executions recorded from the library judged by TLC")
    checks.append(dict(
        property=i, quick_cmd="python3 bin/check.py %s quick" % i,
        thorough_cmd="python3 bin/check.py %s thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="TLA+ specification (%s) checked with TLC; %s" % (", ".join(m + ".tla" for m in mods), "; ".join(how)),
        level=c.get("level", "model_checking"),
        level_note=c.get("note", "The specification is checked exhaustively within the constants of its .cfg; the library is bound to it by executions: every enumerated behaviour is replayed, every recorded one is judged. Trusts TLC, the Go toolchain and the harness' observation of the public API. Behaviour outside the enumerated scope is sampled, not proved.")))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
         notes="No hooks are needed: everything is observed through the public API. Fix commits in /repo are listed in known_findings.txt.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
