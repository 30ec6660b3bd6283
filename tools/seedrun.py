"""developer helper: tools/seedrun.py [-j N] [seed...]: runs the check of each seeded bug's property against a patched copy of /repo"""
import sys, os, subprocess, shutil, json, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; j = 2
if a[:1] == ["-j"]: j = int(a[1]); a = a[2:]
seeds = a or sorted(os.listdir(V + "/seeded")); sem = threading.Semaphore(j)
def one(s):
    with sem:
        w = "/tmp/seedrun." + s; shutil.rmtree(w, ignore_errors=True); v = w + "/v"
        os.makedirs(w); subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"]); subprocess.check_call(["git", "apply", V + "/seeded/" + s + "/patch.diff"], cwd=w + "/r")
        os.makedirs(v)
        for f in ("check.py", "tools", "vcg", "replay", "known_findings.txt", "properties.jsonl"):
            (shutil.copytree if os.path.isdir(V + "/" + f) else shutil.copy)(V + "/" + f, v + "/" + f)
        m = json.load(open(V + "/seeded/" + s + "/meta.json")); t = time.time()
        try:
            p = subprocess.run(["python3-vt", "check.py", m["property"]], cwd=v, env=dict(os.environ, VERIF_REPO=w + "/r", VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900); rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired: rc, out = -1, "timeout"
        print("%-18s %s rc=%s %3.0fs %s" % (s, m["property"], rc, time.time() - t, "CAUGHT" if rc == 1 else "missed")); print("   " + "\n   ".join(out.strip().splitlines()[-6:]), flush=True)
        shutil.rmtree(w)
ts = [threading.Thread(target=one, args=(s,)) for s in seeds]
for t in ts: t.start()
for t in ts: t.join()
