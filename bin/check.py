#!/usr/bin/env python3
"""Runs one check:  check.py PROPERTY [quick|thorough]

Builds the harness from /repo's working tree, lets TLC enumerate or judge, and reports.
exit 0: held on everything explored; exit 1 + VIOLATION line: the real library did
something the specification does not allow; anything else: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

sys.dont_write_bytecode = True

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, os.path.join(ROOT, "bin"))
from checks import CHECKS  # noqa: E402

JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = os.environ.get("VERIF_REPO", "/repo")


class CheckError(Exception):
    pass


class Crash(CheckError):
    pass


def goenv():
    env = dict(os.environ)
    gobin = "/opt/veriftools/go1.27.3/bin"
    path = env.get("PATH", "/usr/bin:/bin")
    if os.path.isdir(gobin):
        path = gobin + ":" + path
    env.update(PATH=path, GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod",
               GOWORK="off")
    env.setdefault("HOME", "/root")
    if os.path.isdir("/root/go/pkg/mod"):
        env["GOMODCACHE"] = "/root/go/pkg/mod"
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    return env


def build(tmp, race=False):
    """The harness is copied so that go cannot touch committed files, and built against REPO."""
    src = os.path.join(tmp, "harness")
    shutil.copytree(os.path.join(ROOT, "harness"), src)
    if REPO != "/repo":
        p = os.path.join(src, "go.mod")
        s = open(p).read().replace("=> /repo", "=> " + REPO)
        open(p, "w").write(s)
    out = os.path.join(tmp, "joeh")
    cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
    r = subprocess.run(cmd, cwd=src, env=goenv(), capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise CheckError("harness does not build:\n" + r.stderr[-4000:])
    return out


NOBODY = 65534
_unprivileged = None


def unprivileged(binp, tmp, work):
    """The library, which may be broken, runs as a user who owns nothing but the scratch folder."""
    global _unprivileged
    if os.getuid() != 0:
        return {}
    if _unprivileged is None:
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
        try:
            os.chmod(tmp, 0o711)
            os.chmod(binp, 0o755)
            os.chown(work, NOBODY, NOBODY)
            ok = subprocess.run([binp], cwd=work, capture_output=True, timeout=60, **kw).returncode == 3
        except (OSError, subprocess.SubprocessError):
            ok = False
        if not ok:
            os.chown(work, 0, 0)
        _unprivileged = kw if ok else {}
    return _unprivileged


def joeh(binp, args, stdin=None, timeout=800, tmp=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("JOEH_V_") or k in ("TERM", "NO_COLOR", "CLICOLOR", "COLORTERM", "CLICOLOR_FORCE"):
            env.pop(k)
    env["TERM"] = "xterm"
    work = os.path.join(tmp, "work")
    os.makedirs(work, exist_ok=True)
    env["JOEH_WORK"] = work
    env["TMPDIR"] = work
    env["HOME"] = work
    r = subprocess.run([binp] + args, input=stdin, capture_output=True, text=True, timeout=timeout,
                       cwd=work, env=env, **unprivileged(binp, tmp, work))
    if r.returncode != 0:
        raise Crash("harness failed: joeh %s\n%s" % (" ".join(args), r.stderr[-4000:]))
    return r.stdout


def execute(binp, area, lines, tmp):
    """The observation of each scenario.  A scenario that brings the process down (stack or memory
    exhausted, fatal error) is found by bisection and observed as a crash; None where not run."""
    try:
        obs = [json.loads(x) for x in joeh(binp, ["exec", area], "\n".join(lines) + "\n", tmp=tmp).splitlines()]
        if len(obs) != len(lines):
            raise CheckError("harness returned %d observations for %d scenarios" % (len(obs), len(lines)))
        for i, o in enumerate(obs):
            if isinstance(o, dict) and o.get("hang"):   # once more, alone
                obs[i] = reexec(binp, area, json.loads(lines[i]), tmp)
            elif isinstance(o, dict) and o.get("skipped"):
                obs[i] = None
        return obs
    except Crash as e:
        if len(lines) == 1:
            return [dict(crash=True)]
        h = len(lines) // 2
        first = execute(binp, area, lines[:h], tmp)
        if any(isinstance(o, dict) and o.get("crash") for o in first):
            return first + [None] * (len(lines) - h)
        return first + execute(binp, area, lines[h:], tmp)


TAG = re.compile(r'^<<"(ACCEPT|REJECT|CASE)", (.*)>>$')


def tlc(tmp, module, cfg, env=None, workers=8, timeout=850, heap="8g"):
    d = tempfile.mkdtemp(prefix="tlc", dir=tmp)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d,
           "-cp", JAVA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
           "-noGenerateSpecTE", "-config", cfg, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    out = r.stdout
    tags = {"ACCEPT": [], "REJECT": [], "CASE": []}
    rest = []
    for line in out.splitlines():
        m = TAG.match(line)
        if m:
            tags[m.group(1)].append(m.group(2))
        else:
            rest.append(line)
    text = "\n".join(rest)
    if "No error has been found" not in text:
        raise CheckError("TLC reports an error in %s (%s):\n%s" % (module, cfg, text[-6000:]))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    gen, dist = int(m.group(1)), int(m.group(2))
    shutil.rmtree(d, ignore_errors=True)
    return tags, dist, gen


def tlastr(s):
    return json.loads(s)


class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.parts = []
        self.bad = []      # dicts: scenario, observed, expected, part


def reexec(binp, area, scen, tmp):
    try:
        return json.loads(joeh(binp, ["exec", area], json.dumps(scen) + "\n", tmp=tmp))
    except Crash:
        return dict(crash=True)


def fields(part, obs):
    """Projection of an outcome to what the property speaks about."""
    p = part.get("project")
    return p(obs) if p else obs


def run_trace(part, tier, seed, binp, tmp, res):
    area, module = part["area"], part["module"]
    n = part[tier]
    chunk = part.get("chunk", 10000)
    done = 0
    accepted = 0
    k = 0
    t0 = time.time()
    budget = part.get("budget", 700)
    st0, tr0 = res.states, res.transitions
    while done < n:
        m = min(chunk, n - done)
        scs = joeh(binp, ["gen", area, "-n", str(m), "-seed", str(seed * 1000 + k),
                          "-profile", part.get("profile", "")], tmp=tmp).splitlines()
        obs = execute(binp, area, scs, tmp)
        rows = [(json.loads(a), b) for a, b in zip(scs, obs) if b is not None]
        bad, acc = judge(module, part.get("cfg", module + ".cfg"), rows, tmp, res)
        accepted += acc
        for i, exp in bad:
            res.bad.append(dict(part=area, module=module, scenario=rows[i][0], observed=rows[i][1], expected=exp))
        if not res.samples or k == 0:
            for s, o in rows[:2]:
                res.samples.append(dict(area=area, direction="code->spec", scenario=s, observed=o))
        done += len(scs)
        k += 1
        if len(scs) < m:
            break
        if res.bad and done >= chunk:
            break
        if time.time() - t0 > budget:
            break
    res.traces += done
    res.parts.append(dict(kind="recorded executions judged by TLC", area=area, module=module,
                          profile=part.get("profile", ""), executions=done, accepted=accepted,
                          states=res.states - st0, transitions=res.transitions - tr0,
                          wall_s=round(time.time() - t0, 1)))


def judge(module, cfg, rows, tmp, res):
    """Returns ([(index, expected outcomes)], accepted count)."""
    fd, path = tempfile.mkstemp(suffix=".ndjson", dir=tmp)
    with os.fdopen(fd, "w") as f:
        for s, o in rows:
            f.write(json.dumps(dict(sc=s, obs=o)) + "\n")
    tags, dist, gen = tlc(tmp, module, cfg, env=dict(TRACE=path))
    os.unlink(path)
    res.states += dist
    res.transitions += gen
    acc = set(int(x) for x in tags["ACCEPT"])
    rej = {}
    for x in tags["REJECT"]:
        i, e = x.split(", ", 1)
        rej.setdefault(int(i), []).append(json.loads(tlastr(e)))
    seen = acc | set(rej)
    missing = [i for i in range(1, len(rows) + 1) if i not in seen]
    if missing:
        raise CheckError("%s: the specification gives no outcome for scenario %s" %
                         (module, json.dumps(rows[missing[0] - 1][0])))
    return [(i - 1, rej[i][:5]) for i in sorted(rej) if i not in acc], len(acc)


def canon(x):
    """Where an observation has a bag, its order is of no concern."""
    if isinstance(x, dict) and isinstance(x.get("bag"), list):
        x = dict(x, bag=sorted(x["bag"], key=lambda y: json.dumps(y, sort_keys=True)))
    return json.dumps(x, sort_keys=True)


def run_gen(part, tier, seed, binp, tmp, res):
    area, module = part["area"], part["module"]
    t0 = time.time()
    tags, dist, gen = tlc(tmp, module, part.get("cfg_" + tier) or "%s.%s.cfg" % (module, tier))
    res.states += dist
    res.transitions += gen
    exp = {}
    for c in tags["CASE"]:
        v = json.loads(tlastr(c))
        exp.setdefault(canon(v["sc"]), []).append(v["exp"])
    if not exp:
        raise CheckError("%s enumerated nothing" % module)
    keys = sorted(exp)
    obs = execute(binp, area, keys, tmp)
    nbad = 0
    for k, ov in zip(keys, obs):
        if ov is None or "notty" in ov:  # needs a terminal, and there is none here
            continue
        co = canon(ov)
        if all(canon(e) != co for e in exp[k]):
            nbad += 1
            res.bad.append(dict(part=area, module=module, scenario=json.loads(k), observed=ov, expected=exp[k][:5]))
    mid = len(keys) // 2
    res.samples.append(dict(area=area, direction="spec->code", scenario=json.loads(keys[mid]), allowed=exp[keys[mid]][:2]))
    res.traces += len(keys)
    res.parts.append(dict(kind="behaviours enumerated by TLC, replayed in the library", area=area, module=module,
                          behaviours=len(keys), agreed=len(keys) - nbad, states=dist, transitions=gen,
                          exhaustive_within_constants=True, wall_s=round(time.time() - t0, 1)))


def run_model(part, tier, seed, binp, tmp, res):
    t0 = time.time()
    module = part["module"]
    _, dist, gen = tlc(tmp, module, part.get("cfg_" + tier) or "%s.%s.cfg" % (module, tier))
    res.states += dist
    res.transitions += gen
    res.parts.append(dict(kind="model checked (specification only)", module=module, states=dist, transitions=gen,
                          wall_s=round(time.time() - t0, 1)))


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                v = json.loads(line)
                if v.get("property") == prop:
                    out.append(v)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chk = CHECKS[prop]
    t0 = time.time()
    base = os.environ.get("VERIF_TMP") or tempfile.gettempdir()
    tmp = tempfile.mkdtemp(prefix="joev-%s-" % prop, dir=base)
    res = Result()
    try:
        binp = build(tmp)
        for part in chk["parts"]:
            if part.get("only") and part["only"] != tier:
                continue
            {"trace": run_trace, "gen": run_gen, "model": run_model}[part["kind"]](part, tier, seed, binp, tmp, res)
        # known findings: replayed every time, reported, never counted as violations
        kf = known_findings(prop)
        kfkeys = set(canon(k["scenario"]) for k in kf)
        for k in kf:
            o = reexec(binp, k["area"], k["scenario"], tmp)
            if canon(o) == canon(k["observed"]):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            else:
                print("note: known finding no longer reproduces: %s" % k["what"])
        bad = [b for b in res.bad if canon(b["scenario"]) not in kfkeys]
    except CheckError as e:
        print("CHECK ERROR property=%s: %s" % (prop, e), file=sys.stderr)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("CHECK ERROR property=%s: timeout %s" % (prop, e), file=sys.stderr)
        sys.exit(2)
    finally:
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(tmp, ignore_errors=True)

    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=chk.get("level", "model_checking"),
        coverage=dict(states=res.states, transitions=res.transitions,
                      traces_validated_against_impl=res.traces,
                      samples=[trim(s) for s in res.samples[:6]], parts=res.parts),
        assumptions=chk.get("assumptions", []),
        wall_s=round(time.time() - t0, 1), violations=len(bad))
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if bad:
        bad.sort(key=lambda b: len(canon(b["scenario"])))
        rp = os.path.join(ev, "replay-%s.json" % prop)
        with open(rp, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, total=len(bad), cases=bad[:20],
                           how="bin/replay.py %s evidence/replay-%s.json" % (prop, prop)), f, indent=1)
        b = bad[0]
        print("smallest of %d rejected executions (area %s, module %s):" % (len(bad), b["part"], b["module"]))
        print("  scenario: " + canon(b["scenario"])[:2000])
        print("  observed: " + canon(b["observed"])[:2000])
        print("  allowed:  " + canon(b["expected"])[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    print("OK property=%s tier=%s seed=%d states=%d executions=%d wall=%.1fs" %
          (prop, tier, seed, res.states, res.traces, time.time() - t0))


def trim(s):
    t = canon(s)
    return s if len(t) < 4000 else dict(truncated=t[:4000])


if __name__ == "__main__":
    main()
