"""Builds the real library from /repo's current tree (ASan) with the replay drivers and runs case groups.
A bounded stand-in / replayer: never counted as proof."""
import os, sys, subprocess, hashlib, time, threading, queue, tempfile, re, shutil, resource
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:malloc_context_size=6:quarantine_size_mb=16:detect_stack_use_after_return=0:max_allocation_size_mb=3000")
CXX = ["g++", "-O1", "-g1", "-std=c++11", "-include", "cassert", "-include", "cstdint", "-fsanitize=address",
       "-fno-omit-frame-pointer", "-w", "-ffp-contract=off"]

def _files(d, exts):
    out = []
    for r, _, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            if f.endswith(exts): out.append(os.path.join(r, f))
    return out

def tree_hash(extra=()):
    h = hashlib.sha256()
    for f in _files(REPO + "/src", (".cpp", ".c", ".hpp", ".h")) + _files(REPO + "/include", (".hpp", ".h")) + list(extra):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

def build(driver):
    """returns (binary or None, message)"""
    rep = _files(VERIF + "/replay", (".cpp", ".hpp"))
    h = tree_hash(rep)
    d = os.path.join(BUILD, h); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, driver)
    if os.path.exists(exe): return exe, "cached"
    drop = {"sz_compress_cp_preserve_3d.cpp"} | set(re.findall(r"replaces: (\S+)", open(VERIF + "/replay/%s.cpp" % driver).read()))
    lib = [f for f in _files(REPO + "/src", (".cpp",)) if os.path.basename(f) not in drop]
    jobs = []
    def cc(src, obj):
        if os.path.exists(obj): return None
        tmp = obj + ".%d.tmp" % os.getpid()
        p = subprocess.run(CXX + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + VERIF + "/replay", "-c", src, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: return p.stdout[-3000:]
        os.replace(tmp, obj); return None
    objs, errs, ths = [], {}, []
    for s in lib + [VERIF + "/replay/%s.cpp" % driver]:
        o = os.path.join(d, os.path.basename(s) + ".o"); objs.append((s, o))
        t = threading.Thread(target=lambda s=s, o=o: errs.__setitem__(s, cc(s, o))); t.start(); ths.append(t)
    for t in ths: t.join()
    bad = {s: e for s, e in errs.items() if e}
    if VERIF + "/replay/%s.cpp" % driver in bad: return None, "driver does not compile: " + bad[VERIF + "/replay/%s.cpp" % driver]
    tmp = exe + ".%d.tmp" % os.getpid()
    p = subprocess.run(["g++", "-fsanitize=address"] + [o for s, o in objs if s not in bad] + ["-lzstd", "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return None, "link failed: " + p.stdout[-3000:] + "".join(bad.values())[-2000:]
    os.replace(tmp, exe)
    return exe, "built"

class Result:
    def __init__(self): self.fails = []; self.evals = 0; self.nontrivial = 0; self.cp = 0; self.secs = 0.0; self.groups = {}

def _one(exe, group, seed, first, count, maxdim, case_to, deadline, res, lock, stop):
    """run cases first..first+count-1, restarting after a crash"""
    cur = first; end = first + count
    while cur < end and not stop.is_set() and time.time() < deadline:
        fd, log = tempfile.mkstemp(prefix="bat", suffix=".log"); os.close(fd)
        err = open(log + ".err", "w+b")
        p = subprocess.Popen([exe, group, str(seed), str(cur), str(end - cur), log, str(maxdim)], stdout=subprocess.DEVNULL, stderr=err, env=ENV,
                             cwd=tempfile.gettempdir())
        last, lastsz, hang, cut = time.time(), -1, False, False
        while True:
            try: p.wait(0.05); break
            except subprocess.TimeoutExpired: pass
            sz = os.path.getsize(log)
            if sz != lastsz: lastsz, last = sz, time.time()
            if time.time() - last > case_to: hang = True; p.kill(); p.wait(); break
            if time.time() > deadline or stop.is_set(): cut = True; p.kill(); p.wait(); break
        txt = open(log, errors="replace").read(); err.seek(0); et = err.read().decode(errors="replace"); err.close()
        for f in (log, log + ".err"):
            try: os.unlink(f)
            except OSError: pass
        idx, desc, ph, done = cur, "", "", None
        out = []
        for ln in txt.splitlines():
            if ln.startswith("INDEX "): idx = int(ln[6:])
            elif ln.startswith("CASE "): desc = ln[5:]
            elif ln.startswith("PHASE "): ph = ln[6:]
            elif ln.startswith("FAIL "):
                m = re.match(r"FAIL (\S+) (.*)", ln); out.append((m.group(1), group, seed, idx, m.group(2), maxdim))
            elif ln.startswith("DONE"): done = dict(kv.split("=") for kv in ln.split()[1:])
        with lock:
            res.fails += out
            g = res.groups.setdefault(group, [0, 0])
            if done:
                res.evals += int(done["evals"]); res.nontrivial += int(done["nontrivial"]); res.cp += int(done.get("cells_with_cp", 0))
                g[0] += int(done["evals"]); g[1] += int(done["nontrivial"])
            else:
                k = max(0, idx - cur); res.evals += k; res.nontrivial += k; g[0] += k; g[1] += k
                if not cut:
                    m = re.search(r"SUMMARY: (.*)", et) or re.search(r"ERROR: (.*)", et)
                    where = "; ".join(re.findall(r"#\d+ \S+ in ([\w:~<>]+)", et)[:5])
                    what = ("no progress for %ds (hang)" % case_to) if hang else (m.group(1) if m else "exit status %s %s" % (p.returncode, et[-200:].strip()))
                    res.fails.append(("CRASH", group, seed, idx, "%s :: during %s: %s [%s]" % (desc, ph, what, where), maxdim))
        if done or cut: return
        cur = idx + 1

def run(exe, plan, seed, workers=8, budget=600, case_to=60, maxdim=70, stop_after=None):
    """plan: list of (group, count). returns Result"""
    res = Result(); lock = threading.Lock(); stop = threading.Event(); q = queue.Queue(); t0 = time.time(); deadline = t0 + budget
    items = []
    for g, cnt in plan:
        sh = max(1, min(workers, cnt // 4)); step = (cnt + sh - 1) // sh
        for s in range(0, cnt, step): items.append((s, g, min(step, cnt - s)))
    items.sort(key=lambda t: t[0])
    for it in items: q.put(it)
    def w():
        while not stop.is_set():
            try: s, g, c = q.get_nowait()
            except queue.Empty: return
            _one(exe, g, seed, s, c, maxdim, case_to, deadline, res, lock, stop)
            if stop_after is not None and stop_after(res.fails): stop.set()
    ts = [threading.Thread(target=w) for _ in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
    res.secs = time.time() - t0
    return res

if __name__ == "__main__":
    drv = sys.argv[1]; exe, msg = build(drv); print(exe, msg)
    if not exe: sys.exit(2)
    plan = [(a.split("=")[0], int(a.split("=")[1])) for a in sys.argv[3:]]
    r = run(exe, plan, int(sys.argv[2]), budget=800)
    print("evals", r.evals, "nontrivial", r.nontrivial, "cp cells", r.cp, "secs %.1f" % r.secs, r.groups)
    for f in r.fails[:60]: print(f[0], f[1], f[3], f[4][:420])
    print(len(r.fails), "fails")
