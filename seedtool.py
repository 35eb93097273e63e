#!/usr/bin/env python3
"""Helps planting bugs. Works on a scratch copy (/tmp/seed/repo, a cp -a of /repo) holding an uncommitted change.

seedtool.py keep ID PROPERTY NEEDS BREAKS   verify the change in the copy and keep it as seeded/ID
    (seeded/ID must already contain demo.sh and what it needs)
seedtool.py check ID [CHECK...]             apply seeded/ID to /repo, run the quick checks, undo
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
S = "/tmp/seed"

def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def keep(sid, prop, needs, breaks):
    d = f"{V}/seeded/{sid}"
    diff = sh(["git", "diff"], S + "/repo").stdout
    assert diff.strip(), "no change"
    open(d + "/patch.diff", "w").write(diff)
    p = sh(["bash", S + "/build.sh"])
    if p.returncode: print(p.stdout[-3000:]); sys.exit("build failed")
    sh(["bash", S + "/test.sh", S + "/out.json"])
    out = json.load(open(S + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    missing = [t for t in base if t not in out["passed"]]
    if missing: sys.exit(f"tests fail: {missing[:5]}")
    t = time.time()
    p = sh(["bash", d + "/demo.sh"], S + "/repo", 300)
    print("demo with:", p.returncode, f"{time.time()-t:.0f}s", p.stdout[-400:])
    bad = p.returncode
    sh(["git", "stash"], S + "/repo")
    try:
        p = sh(["bash", d + "/demo.sh"], S + "/repo", 300)
        print("demo without:", p.returncode, p.stdout[-1500:] if p.returncode else "")
    finally:
        sh(["git", "stash", "drop"], S + "/repo")
    if bad == 0 or p.returncode != 0: sys.exit("demo does not discriminate")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=2)
    print("KEPT", sid)

def check(sid, checks):
    d = f"{V}/seeded/{sid}"
    checks = checks or [json.load(open(d + "/meta.json"))["property"]]
    assert not sh(["git", "status", "--porcelain"], "/repo").stdout.strip()
    p = sh(["git", "apply", d + "/patch.diff"], "/repo")
    assert p.returncode == 0, p.stdout
    try:
        for c in checks:
            t = time.time()
            p = sh([sys.executable, V + "/check.py", c, "quick"], V, 1800)
            lines = [l[:300] for l in p.stdout.splitlines() if "VIOLATION" in l or "KNOWN" in l]
            print(f"{sid} {c}: exit {p.returncode} {time.time()-t:.0f}s", *(lines[:2] or p.stdout.splitlines()[-3:]), sep="\n   ")
    finally:
        sh(["git", "checkout", "--", "."], "/repo")

if sys.argv[1] == "keep": keep(*sys.argv[2:6])
else: check(sys.argv[2], sys.argv[3:])
