#!/usr/bin/env python3
"""Builds the harness once (fills the Go build cache) and parses every specification."""
import os, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
tmp = tempfile.mkdtemp(prefix="joev-setup-")
try:
    check.build(tmp)
    d = os.path.join(tmp, "spec")
    shutil.copytree(check.SPEC, d)
    for f in sorted(os.listdir(d)):
        if f.endswith(".tla"):
            r = subprocess.run(["java", "-cp", check.JAVA_CP, "tla2sany.SANY", f], cwd=d, capture_output=True, text=True)
            if r.returncode != 0:
                sys.exit("SANY rejects %s:\n%s" % (f, r.stdout))
    print("setup ok")
finally:
    shutil.rmtree(tmp, ignore_errors=True)
