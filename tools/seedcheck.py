#!/usr/bin/env python3
"""Validate planted changes: tools/seedcheck.py [--notests] ID... (applies each to /repo, undoes it)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


args = sys.argv[1:]
notests = "--notests" in args
nodemo = "--nodemo" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(S))
assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in ids:
    d = os.path.join(S, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    out = [i, prop]
    try:
        if not nodemo:
            p = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=400)
            out.append("demo-clean=%d" % p.returncode)
            if p.returncode:
                print(p.stdout[-1500:])
        p = sh("git -C /repo apply %s/patch.diff" % d)
        if p.returncode:
            print(i, "DOES NOT APPLY", p.stdout)
            continue
        p = sh("bash /opt/vp/build.sh")
        out.append("build=%d" % p.returncode)
        if p.returncode:
            print(p.stdout[-1500:])
        if not nodemo:
            p = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=400)
            out.append("demo-bug=%d" % p.returncode)
            if p.returncode == 0:
                print(p.stdout[-1500:])
            elif "-v" in args:
                print(p.stdout[-1500:])
        if not notests:
            sh("bash /opt/vp/test.sh /tmp/seed_t.json")
            got = set(json.load(open("/tmp/seed_t.json"))["passed"])
            miss = sorted(stable - got)
            out.append("tests=%s" % (miss[:3] or "ok"))
        t = time.time()
        p = sh("VERIF_SEED=1 VERIF_TIER=quick python3 %s/run.py %s" % (V, prop))
        out.append("check=%d %s in %.0fs" % (p.returncode, "CAUGHT" if p.returncode == 1 and "VIOLATION property=%s" % prop in p.stdout else "MISSED", time.time() - t))
        ks = [l[:150] for l in p.stdout.splitlines() if l.startswith("---")]
        out.append(str(ks[:3]))
        if p.returncode not in (0, 1):
            print(p.stdout[-1500:])
    finally:
        sh("git -C /repo checkout -- .")
    print(*out, flush=True)
