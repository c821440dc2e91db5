#!/usr/bin/env python3
"""Keeps a planted bug: seed.py ID PROPERTY NEEDS BREAKS
The change is the diff of the scratch copy (SEED_WT, default /tmp/w, a copy of /repo), the demonstration
is /tmp/demo/main.go.  Confirms: builds, the repository's tests pass, the demonstration passes without
and fails with the change.  Then seeded/ID is written and the scratch copy restored."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("SEED_WT", "/tmp/w")
sid, prop, needs, breaks = sys.argv[1:5]
def sh(cmd, cwd):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True)
diff = sh("git diff", WT).stdout
assert diff, "no change"
d = os.path.join(ROOT, "seeded", sid)
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
if os.path.exists("/tmp/demo/main.go"):
    shutil.copy("/tmp/demo/main.go", d + "/main.go")
open(d + "/demo.sh", "w").write('#!/bin/bash\n[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh\nexec go run "$(cd "$(dirname "$0")" && pwd)/main.go"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
ok = True
r = sh("go build ./... && go vet . 2>&1 | head -3; go test ./... 2>&1 | grep -v '^ok\\|no test files' | tail -300", WT)
print("tests:", "\n".join(l[:300] for l in r.stdout.splitlines() if "FAIL" in l or "set.go" in l or ".go:" in l)[-900:] or "pass", r.stderr[-500:])
ok &= not r.stdout.strip()
r = sh("bash %s/demo.sh" % d, os.environ.get("SEED_BASE", "/tmp/w2")); print("demo clean:", r.returncode, (r.stdout + r.stderr)[-600:]); ok &= r.returncode == 0
r = sh("bash %s/demo.sh" % d, WT); print("demo patched:", r.returncode, (r.stdout + r.stderr)[-600:]); ok &= r.returncode != 0
r = sh("git apply --check %s/patch.diff" % d, "/repo"); print("applies:", r.returncode, r.stderr); ok &= r.returncode == 0
sh("git checkout -- .", WT)
if not ok:
    shutil.rmtree(d); print("NOT KEPT"); sys.exit(1)
print("KEPT", sid)
