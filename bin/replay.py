#!/usr/bin/env python3
"""replay.py PROPERTY FILE: runs the scenarios of a replay file in the library again."""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
tmp = tempfile.mkdtemp(prefix="joev-replay-")
try:
    b = check.build(tmp)
    for c in json.load(open(sys.argv[2]))["cases"]:
        o = check.reexec(b, c["part"], c["scenario"], tmp)
        print(json.dumps(dict(scenario=c["scenario"], observed_now=o, allowed=c["expected"])))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
