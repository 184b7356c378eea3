#!/usr/bin/env python3
"""python3 tools/plant.py [--checks] [--all-checks] id...   confirm planted bugs in a scratch copy and show which checks see them"""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, B = "/tmp/mrepo", "/tmp/mbuild"
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
nob = "--no-build" in sys.argv
allc = "--all-checks" in sys.argv


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


if not os.path.exists(M):
    sh("cp -a /repo %s" % M)
    # the tree is moved: reconfigure through the same script
if not os.path.exists(B):
    sh("cp -a %s/build %s" % (V, B))
sh("git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (M, M))
bs = open("/opt/vp/build.sh").read().replace("/repo", M)
open("/tmp/mbuild.sh", "w").write(bs)
ts = open("/opt/vp/test.sh").read().replace("/repo", M)
open("/tmp/mtest.sh", "w").write(ts)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
env = dict(os.environ, VERIF_REPO=M, VERIF_BUILD=B)
for i in ids:
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    sh("git -C %s checkout -- ." % M)
    r = sh("git -C %s apply %s/patch.diff" % (M, d))
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stderr[:200]); continue
    msg = []
    if not nob:
        r = sh("bash /tmp/mbuild.sh")
        if r.returncode:
            print(i, "BUILD FAILS", r.stdout[-300:], r.stderr[-600:]); sh("git -C %s checkout -- ." % M); continue
        sh("bash /tmp/mtest.sh /tmp/mout.json")
        p = set(json.load(open("/tmp/mout.json"))["passed"])
        if stable - p:
            msg.append("TESTS FAIL: %s" % sorted(stable - p)[:4])
        r = sh("bash %s/demo.sh" % d, cwd=M)
        msg.append("demo-patched=%d" % r.returncode)
        if r.returncode == 0:
            msg.append("DEMO DOES NOT FAIL")
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        msg.append("demo-clean=%d" % r.returncode)
        if r.returncode:
            msg.append("DEMO FAILS ON CLEAN " + r.stdout[-200:] + r.stderr[-400:])
    for c in (props if allc else [meta["property"]]):
        r = sh("python3 %s/check.py %s" % (V, c), cwd=V, env=env)
        last = r.stdout.strip().split("\n")
        if r.returncode == 1:
            msg.append("[%s CAUGHT: %s]" % (c, [l for l in last if l.startswith("  at")][:1]))
        elif r.returncode != 0:
            msg.append("[%s ERROR %s]" % (c, (r.stdout + r.stderr)[-200:]))
        elif c == meta["property"]:
            msg.append("[%s MISSED]" % c)
    sh("git -C %s checkout -- ." % M)
    print(i, meta["property"], " ".join(msg), flush=True)
