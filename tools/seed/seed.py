#!/usr/bin/env python3
"""seed.py FILE.json...: writes seeded/<id>/ for each planted bug described there and (--verify) tries it.

A description: {id, property, file, subs: [[old, new], ...] (or {file: subs}), demo: rust, needs, breaks}.
--verify applies it to /repo, builds, runs the stable tests and the demo with and without it, and undoes it;
--catch also runs the property's quick check."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = os.path.dirname(os.path.abspath(__file__))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def write(b):
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    subs = b["subs"] if isinstance(b["subs"], dict) else {b["file"]: b["subs"]}
    try:
        for f, ss in subs.items():
            p = "/repo/" + f
            t = open(p).read()
            for old, new in ss:
                assert t.count(old) >= 1, (b["id"], f, t.count(old), old)
                t = t.replace(old, new, 1)
            open(p, "w").write(t)
        diff = sh("git -C /repo diff").stdout
    finally:
        sh("git -C /repo checkout -- .")
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(b["demo"])
    shutil.copy(HERE + "/demo.sh", d + "/demo.sh")
    shutil.copy(V + "/harness/Cargo.lock", d + "/Cargo.lock")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def verify(i, catch, verif):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    r = []
    if verif:
        x = sh("bash %s/demo.sh" % d, cwd="/repo")
        r.append("demo-clean=%d" % x.returncode)
        if x.returncode:
            print(x.stdout[-1500:])
    assert sh("git -C /repo apply %s/patch.diff" % d).returncode == 0, i
    try:
        if verif:
            x = sh("bash /opt/vp/build.sh")
            r.append("build=%d" % x.returncode)
            sh("bash /opt/vp/test.sh /tmp/seed-out.json")
            o = json.load(open("/tmp/seed-out.json"))
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            passed = set(o["passed"]) if "passed" in o else set(k for k, v in o.get("tests", o).items() if v in ("pass", "passed", "ok"))
            r.append("lost=%s" % sorted(base - passed))
            x = sh("bash %s/demo.sh" % d, cwd="/repo")
            r.append("demo-patched=%d %s" % (x.returncode, x.stdout.strip().splitlines()[-1:] and [l for l in x.stdout.splitlines() if "panicked" in l or "left" in l or "assert" in l][:2]))
        if catch:
            x = sh("python3-vt check.py %s --tier quick | cut -c1-200" % prop, cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
            r.append("check=%s" % (v[0][:150] if v else "MISSED " + " | ".join(x.stdout.splitlines()[-3:])[:300]))
    finally:
        sh("git -C /repo checkout -- .")
    print(i, prop, *r, flush=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    catch, verif = "--catch" in a, "--verify" in a
    ids = []
    for f in a:
        if f.startswith("--"):
            continue
        if f.endswith(".json") or f.endswith(".py"):
            bs = json.load(open(f)) if f.endswith(".json") else eval(open(f).read())
            for b in bs:
                write(b)
                ids.append(b["id"])
        else:
            ids.append(f)
    for i in ids:
        verify(i, catch, verif)
