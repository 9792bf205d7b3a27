#!/usr/bin/env python3-vt
"""Decide one property: check.py ID [--tier quick|thorough] [--job NAME] | check.py --replay FILE"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from engine import build, ir, job as J  # noqa: E402

EVID = os.path.join(HERE, "evidence")


def child(conn, jb, M, dem, red, native, seed, budget, tier):
    try:
        r = getattr(jb, "runner", J.Runner)(jb, M, dem, red, native, seed, budget, tier).run()
    except BaseException:
        r = J.Result(jb.name)
        r.errors.append("internal: " + traceback.format_exc()[-1500:])
    conn.send(r.__dict__)
    conn.close()


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                out.append(dict(kv.split("=", 1) for kv in ln[len("finding: "):].split(" | ")[0].split()) | {"text": ln.split(" | ", 1)[-1]})
    return out


def run_jobs(jobs, ctxs, native, seed, tier, budget, par):
    """Each job in a process of its own; returns name -> result dict."""
    res = {}
    pending = list(jobs)
    live = []
    t0 = time.time()
    while pending or live:
        while pending and len(live) < par:
            jb = pending.pop(0)
            M, dem, red = ctxs[jb.name]
            a, b = mp.Pipe(False)
            bud = jb.opts.get("budget", budget)
            p = mp.Process(target=child, args=(b, jb, M, dem, red, native, seed, bud, tier))
            p.start()
            b.close()
            live.append((jb, p, a, time.time() + bud * 1.5 + 60))
        nxt = []
        for jb, p, a, end in live:
            if a.poll(0.02):
                try:
                    res[jb.name] = a.recv()
                except EOFError:
                    r = J.Result(jb.name)
                    r.errors.append("worker ended without a result")
                    res[jb.name] = r.__dict__
                p.join()
            elif not p.is_alive():
                r = J.Result(jb.name)
                r.errors.append("worker died")
                res[jb.name] = r.__dict__
            elif time.time() > end:
                p.kill()
                r = J.Result(jb.name)
                r.errors.append("worker timed out")
                res[jb.name] = r.__dict__
            else:
                nxt.append((jb, p, a, end))
        live = nxt
        time.sleep(0.02)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)
    if args.setup:
        os.makedirs(build.TARGET, exist_ok=True)
        n = build.Native()
        build.build_ir()
        n.path()
        print("built")
        return 0
    pid, tier = args.id, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(build.TARGET, exist_ok=True)
    mod = importlib.import_module("specs." + pid.lower())
    jobs = [j for j in mod.JOBS if (tier == "thorough" or j.tier == "quick") and (not args.job or j.name == args.job)]
    native = build.Native()
    allbc = build.build_ir()
    ctxs = {}
    groups = {}
    for j in jobs:
        key = json.dumps(sorted(j.redirects.items(), key=str), default=str)
        groups.setdefault(key, []).append(j)
    missing = []
    for n, (key, js) in enumerate(sorted(groups.items())):
        red = js[0].redirects
        text, found, dem, miss = build.slice_ir(allbc, sorted({j.harness for j in js}), red, "%s-%d" % (pid, n))
        missing += miss
        M = ir.Module(text)
        cache = {}

        def demangle(s, dem=dem, cache=cache):
            v = dem.get("@" + s) or dem.get('@"%s"' % s) or cache.get(s)
            if v is None:
                v = cache[s] = build.demangle([s])[0]
            return v
        rmap = {k: v for k, v in found.items() if v is not None}
        for j in js:
            ctxs[j.name] = (M, demangle, rmap)
    native.path()
    native.t = NoThread()
    tb = time.time() - t0
    res = run_jobs(jobs, ctxs, native, seed, tier, 240 if tier == "quick" else 1500, args.j)
    return report(pid, tier, seed, jobs, res, t0, tb, missing, args, mod)


class NoThread:
    def join(self):
        pass


def report(pid, tier, seed, jobs, res, t0, tb, missing, args, mod):
    kf = known_findings(pid)
    viol, known, errs = [], [], []
    tot = dict(paths=0, claims=0, discharged=0, queries=0, solver_time=0.0, ins=0, forks=0, validated=0)
    funcs = {}
    undec = []
    for j in jobs:
        r = res[j.name]
        for v in r["violations"]:
            hit = next((k for k in kf if k.get("job") == j.name and k.get("claim", "").replace("_", " ") == v.get("claim")), None)
            (known if hit else viol).append((v, hit))
        for e in r["errors"]:
            errs.append("%s: %s" % (j.name, e))
        for e in r["mismatch"]:
            errs.append("%s: encoding disagrees with the native run: %s" % (j.name, e))
        for u in r["undecided"]:
            undec.append(dict(u, job=j.name))
        if not r["errors"] and not r["violations"] and j.witness and not r["witnessed"]:
            errs.append("%s: no path with the expected status is witnessed by a sample" % j.name)
        tot["paths"] += sum(r["paths"].values())
        tot["claims"] += r["claims"]
        tot["discharged"] += r["discharged"]
        tot["queries"] += r["solver"].get("queries", 0)
        tot["solver_time"] += r["solver"].get("time_s", 0)
        tot["ins"] += r["ins"]
        tot["forks"] += r["forks"]
        tot["validated"] += r["validated"]
        for f, k in r["functions"].items():
            funcs[f] = funcs.get(f, 0) + k
        if args.v:
            print(j.name, "paths", r["paths"], "claims", r["claims"], "ok", r["discharged"], "undecided", len(r["undecided"]),
                  "viol", len(r["violations"]), "valid", r["validated"], r["solver"], "%.1fs" % r["wall"])
            for u in r["undecided"][:5]:
                print("   undecided", u)
            for e in r["errors"] + r["mismatch"]:
                print("   error", e)
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking",
          "coverage": {
              "states": tot["paths"] + tot["forks"], "transitions": tot["ins"],
              "traces_validated_against_impl": tot["validated"],
              "paths": tot["paths"], "obligations": tot["claims"], "discharged": tot["discharged"],
              "solver_queries": tot["queries"], "solver_time_s": round(tot["solver_time"], 2), "build_s": round(tb, 1),
              "functions_encoded": sorted(funcs),
              "bounds": {j.name: j.bounds for j in jobs},
              "undecided": undec[:40],
              "jobs": {j.name: {"paths": res[j.name]["paths"], "claims": res[j.name]["claims"],
                                "discharged": res[j.name]["discharged"], "wall_s": round(res[j.name]["wall"], 2),
                                "solver": res[j.name]["solver"], "pinned_slices": res[j.name]["slices"],
                                "unknown_feasibility": res[j.name]["unknown_feas"]} for j in jobs},
              "samples": [dict(s, job=j.name) for j in jobs for s in res[j.name]["samples"]][:6] or [{"none": True}]},
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + getattr(mod, "ARITHMETIC", ["real arithmetic: rounding of the f64 operations is outside the encoding"]),
          "wall_s": round(wall, 1), "violations": len(viol)}
    if not args.job:
        json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1, default=str)
    for v, k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    print("%s %s: %d paths, %d/%d claims discharged, %d undecided, %d queries (%.1f s solver), %d native validations, %.1f s"
          % (pid, tier, tot["paths"], tot["discharged"], tot["claims"], len(undec), tot["queries"], tot["solver_time"], tot["validated"], wall))
    for e in errs:
        print("ERROR %s" % e)
    for u in undec[:10]:
        print("UNDECIDED %s: %s (%s)" % (u.get("job"), u.get("claim"), u.get("why")))
    if viol:
        for n, (v, _) in enumerate(viol):
            p = os.path.join(EVID, "replay-%s-%d.json" % (pid, n))
            json.dump(dict(v, property=pid), open(p, "w"), indent=1, default=str)
            print("  %s: claim '%s' fails on %s (%s)" % (v["job"], v["claim"], v["inputs_dec"], v.get("how")))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    # what could not be decided is reported above and in the evidence; it is not a violation
    return 2 if errs and not tot["discharged"] else 0


def replay(path):
    v = json.load(open(path))
    native = build.Native()
    import struct
    xs = [struct.unpack("<d", struct.pack("<Q", int(x, 16)))[0] for x in v["inputs"]]
    print(v["harness"], native.call(v["harness"], xs))
    print("claim:", v["claim"])
    return 0


if __name__ == "__main__":
    sys.exit(main())
