"""planted bugs: make them, confirm them, run the checks against them (in private mount namespaces, /repo itself is not touched)

plant.py make FILE.py    FILE.py defines BUGS = [dict(id, property, edits=[(file, old, new)], pkg, test, needs, breaks)]
plant.py check [ID...]   which checks catch which bugs (VERIF_SEED and VERIF_TIER apply); results are kept in seeded/RESULTS.json
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
SEEDED = "/verif/seeded"
DEMO = '''#!/bin/bash
# runs a test laid over the tree in the working directory
d="$(cd "$(dirname "$0")" && pwd)"
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off TZ=Asia/Tokyo
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
go test -vet=off -count=1 %(flags)s-timeout 120s -overlay "$t/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def ns(wt, cmd, timeout=1000, evidence=None, env=None):
    s = "mount --bind %s /repo && cd /repo && " % wt
    if evidence: s += "mount --bind %s /verif/evidence && " % evidence
    return subprocess.run(["unshare", "-m", "bash", "-c", s + cmd], capture_output=True, text=True, timeout=timeout, errors="replace", env=env)
def copy(): 
    wt = tempfile.mkdtemp(prefix="wt-")
    subprocess.run(["cp", "-a", "/repo/.", wt], check=True)
    subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
    return wt
def make(b):
    wt = copy(); d = os.path.join(SEEDED, b["id"])
    shutil.rmtree(d, True); os.makedirs(d)
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f); s = open(p).read()
            if s.count(old) != 1: return b["id"], "edit matches %d times in %s: %s" % (s.count(old), f, old[:60])
            open(p, "w").write(s.replace(old, new))
        subprocess.run(["gofmt", "-l", "."], cwd=wt)
        diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo_test.go.txt", "w").write(b["test"])
        open(d + "/demo.sh", "w").write(DEMO % dict(pkg=b["pkg"], flags=b.get("flags", "")))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = ns(wt, "bash /opt/vp/build.sh")
        if r.returncode: return b["id"], "does not build: " + (r.stdout + r.stderr)[-600:]
        r = ns(wt, "bash /opt/vp/test.sh %s/o.json" % wt)
        m = re.search(r"(\d+) passed, (\d+) failed", r.stdout)
        stable = json.load(open("/opt/vp/BASELINE.json"))
        if not m or m.group(2) != "0": return b["id"], "tests: " + (r.stdout + r.stderr)[-400:] 
        os.unlink(wt + "/o.json")
        r = ns(wt, "bash %s/demo.sh" % d)
        if r.returncode == 0: return b["id"], "the demo passes with the bug"
        if "FAIL" not in r.stdout or "build failed" in r.stdout: return b["id"], "demo: " + (r.stdout + r.stderr)[-800:]
        why = [l for l in (r.stdout + r.stderr).split("\n") if l.strip()][:3]
        subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
        for _ in range(2):
            r = ns(wt, "bash %s/demo.sh" % d)
            if r.returncode: return b["id"], "the demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-800:]
        return b["id"], "ok " + " | ".join(why)[:200]
    finally:
        shutil.rmtree(wt)
def check(id):
    d = os.path.join(SEEDED, id)
    prop = json.load(open(d + "/meta.json"))["property"]
    wt = copy(); ev = tempfile.mkdtemp(prefix="ev-")
    try:
        r = subprocess.run(["git", "-C", wt, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if r.returncode: return id, prop, "does not apply: " + r.stderr[-300:]
        r = ns(wt, "cd /verif && python3 check.py %s" % prop, timeout=1500, evidence=ev)
        v = "VIOLATION property=%s " % prop in r.stdout
        msg = [l for l in r.stderr.split("\n") if l.startswith("  ")][:1]
        return id, prop, ("caught" if v and r.returncode == 1 else "missed" if r.returncode == 0 else "BROKEN rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-500:])) + (": " + msg[0].strip()[:260] if msg else "")
    finally:
        shutil.rmtree(wt); shutil.rmtree(ev)
if __name__ == "__main__":
    if sys.argv[1] == "make":
        g = {}; exec(open(sys.argv[2]).read(), g)
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(make, [b for b in g["BUGS"] if len(sys.argv) < 4 or b["id"] in sys.argv[3:]]): print(*r, flush=True)
    else:
        ids = sys.argv[2:] or sorted(x for x in os.listdir(SEEDED) if os.path.isdir(os.path.join(SEEDED, x)))
        p = SEEDED + "/RESULTS.json"
        res = json.load(open(p)) if os.path.exists(p) else {}
        with ThreadPoolExecutor(3) as ex:
            for id, prop, r in ex.map(check, ids):
                print(id, prop, r, flush=True); res[id] = dict(property=prop, result=r.split(":")[0])
        json.dump(res, open(p, "w"), indent=1, sort_keys=True)
