#!/usr/bin/env python3
"""python3-vt check.py <property>: decides one property for /repo's current tree.
The deciding step is the discharge of the obligations of the proof parts (vcg/); the replay battery (replay/, ASan build of the
real library) replays failed obligations, finds failing inputs and stands in, bounded, for what the parts do not reach."""
import sys, os, json, time, subprocess, threading, random
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from tools import battery
from tools.checks import CHECKS
T0 = time.time()
def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1); deep = tier == "thorough"
    C = CHECKS[prop]; os.makedirs(HERE + "/evidence/replays", exist_ok=True)
    part_to = 1500 if deep else 260
    results = {}
    def runpart(p):
        t = time.time()
        try:
            r = subprocess.run(["python3-vt", HERE + "/tools/runpart.py", p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=part_to, cwd=HERE)
            results[p] = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception as e:
            results[p] = dict(part=p, obls=[], functions=[], assumptions=[], undecided=[dict(why="part did not finish: %s" % type(e).__name__, props=[])], solver_s=0, wall_s=time.time() - t, notes=[str(e)[:300]])
    sem = threading.Semaphore(7)
    def guarded(p):
        with sem: runpart(p)
    ths = [threading.Thread(target=guarded, args=(p,)) for p in C["parts"]]
    for t in ths: t.start()
    hit = lambda f: f[0] in C["accept"] or f[0] == "CRASH" or (f[0] + "@" + f[1]) in C["accept"]
    bat = dict(evals=0, nontrivial=0, cp=0, secs=0.0, groups={}, builds={}); fails = []
    def plan_run(scale, budget, sd, stop=True, workers=8):
        for drv, plan in C["battery"]:
            exe, msg = battery.build(drv); bat["builds"][drv] = msg[:400]
            if not exe: continue
            p = [(g, max(4, int(n * scale))) for g, n in plan]
            r = battery.run(exe, p, sd, workers=workers, budget=budget, stop_after=(lambda fs: any(hit(f) for f in fs)) if stop else None)
            bat["evals"] += r.evals; bat["nontrivial"] += r.nontrivial; bat["cp"] += r.cp; bat["secs"] += r.secs
            for g, v in r.groups.items():
                w = bat["groups"].setdefault(g, [0, 0]); w[0] += v[0]; w[1] += v[1]
            for f in r.fails:
                if hit(f): fails.append((drv,) + tuple(f))
            if fails: return
    plan_run(20 if deep else 1, 900 if deep else C.get("budget", 60), seed, workers=8 if len(C["parts"]) < 3 else 6)
    for t in ths: t.join()
    obls = [(p, o) for p in C["parts"] for o in results[p]["obls"] if prop in o["props"]]
    undec = [(p, u["why"]) for p in C["parts"] for u in results[p]["undecided"] if not u["props"] or prop in u["props"]]
    failed = [(p, o) for p, o in obls if o["status"] == "failed"]; unknown = [(p, o) for p, o in obls if o["status"] == "unknown"]
    for p, need in C.get("expect", {}).items():   # vacuity guard: a part that yields fewer obligations than this has lost its subject
        n = sum(1 for q, o in obls if q == p)
        if n < need and not any(q == p for q, _ in undec): undec.append((p, "only %d obligations generated (at least %d expected)" % (n, need)))
    searched = 0
    if not fails and (failed or unknown or undec):
        left = 420 if failed else 150
        for k in range(3):
            if time.time() - T0 > left or fails: break
            plan_run(3, max(10, min(60 if failed else 30, left - (time.time() - T0))), seed + 1000 * (k + 1)); searched += 1
    viol = None
    def rp(tag): return HERE + "/evidence/replays/%s-%s.json" % (prop, tag)
    for old in os.listdir(HERE + "/evidence/replays"):
        if old.startswith(prop + "-"): os.unlink(HERE + "/evidence/replays/" + old)
    if fails:
        drv, tag, group, sd, idx, desc, maxdim = fails[0]
        path = rp("input"); json.dump(dict(property=prop, kind="failing input on the real library", driver=drv, group=group, seed=sd, index=idx, maxdim=maxdim, tag=tag, what=desc,
             failed_obligations=[dict(part=p, **o) for p, o in failed[:5]], rerun="python3 tools/replay.py " + path), open(path, "w"), indent=1)
        print("%s: %s" % (tag, desc[:600])); viol = "VIOLATION property=%s replay=%s" % (prop, path)
    elif failed:
        path = rp("obligation"); json.dump(dict(property=prop, kind="failed obligation, no failing input found", failed_obligations=[dict(part=p, **o) for p, o in failed[:20]],
             rerun="python3-vt tools/runpart.py " + failed[0][0]), open(path, "w"), indent=1)
        for p, o in failed[:5]: print("FAILED OBLIGATION [%s] %s (%s)" % (p, o["name"], o["backend"]))
        viol = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)
    npr = sum(1 for p, o in obls if o["status"] == "proved"); backs = {}
    for p, o in obls:
        b = o["backend"].split(" ")[0].split(";")[0]; backs[b] = backs.get(b, 0) + 1
    cov = dict(obligations=len(obls), discharged=npr, checker_cmd="python3-vt check.py %s (parts: %s)" % (prop, ", ".join(C["parts"]) or "none"),
               trusted_base=["vcg/ (verification-condition generator over clang -O0+mem2reg LLVM IR of /repo)", "z3, cvc5", "clang 18"] + C.get("trusted", []),
               functions_under_contract=sorted({f for p in C["parts"] for f in results[p]["functions"]}), back_ends=backs,
               solver_seconds=round(sum(o["secs"] for p, o in obls), 2), undischarged=[o["name"] for p, o in failed + unknown][:20], undecided_parts=["%s: %s" % u for u in undec][:20],
               parts={p: dict(obligations=sum(1 for o in results[p]["obls"] if prop in o["props"]), wall_s=results[p]["wall_s"]) for p in C["parts"]},
               samples=[o["name"] for p, o in obls[:: max(1, len(obls) // 6)]][:8] or ["no deductive obligations for this property"],
               evaluations=bat["evals"], distinct_nontrivial=bat["nontrivial"],
               rule="bounded stand-in: generated calls of the real library under AddressSanitizer; non-trivial when the case has more than 4 elements; groups %s" % json.dumps(bat["groups"]),
               bounded=dict(bound="at most %d points per axis, %d generated cases" % (70, bat["evals"]), drivers=bat["builds"], secs=round(bat["secs"], 1), extra_searches=searched))
    ev = dict(property=prop, tier="thorough" if deep else "quick", seed=seed, level=C["level"], coverage=cov,
              assumptions=sorted({a for p in C["parts"] for a in results[p]["assumptions"]} | set(C.get("assumptions", []))), wall_s=round(time.time() - T0, 1), violations=1 if viol else 0)
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d failed, %d unknown, %d undecided; battery %d cases %.0fs; %.0fs" % (prop, len(obls), npr, len(failed), len(unknown), len(undec), bat["evals"], bat["secs"], time.time() - T0))
    for p, w in undec[:6]: print("  undecided [%s] %s" % (p, w[:200]))
    for p, o in unknown[:6]: print("  not discharged [%s] %s" % (p, o["name"][:200]))
    kf = HERE + "/known_findings.txt"
    if os.path.exists(kf):
        for ln in open(kf):
            if ln.startswith("known: property=%s " % prop): print("KNOWN-FINDING: " + ln[7:].strip())
    if viol: print(viol); return 1
    return 0
if __name__ == "__main__":
    sys.exit(main())
