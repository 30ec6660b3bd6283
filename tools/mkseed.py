"""developer helper: tools/mkseed.py <id> <property> <needs> <breaks> file:::old:::new ... with the demo source on stdin -> seeded/<id>/"""
import sys, os, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# demonstration: builds the library from the tree in the current directory with demo.cpp and runs it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
srcs=$(ls src/*.cpp | grep -v 'preserve_3d.cpp')
n=0; for s in $srcs "$d/demo.cpp"; do g++ %s -std=c++11 -include cassert -include cstdint -w -Iinclude -Isrc -c "$s" -o "$t/$n.o" & n=$((n+1)); done; wait
g++ %s "$t"/*.o -lzstd -o "$t/demo" || exit 2
cd "$t" && timeout 200 ./demo > out.txt 2> err.txt; r=$?
tail -3 out.txt; tail -5 err.txt; exit $r
"""
def main():
    sid, prop, needs, breaks = sys.argv[1:5]; edits = sys.argv[5:]; asan = os.environ.get("ASAN")
    w = "/tmp/mkseed"; shutil.rmtree(w, ignore_errors=True); subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for e in edits:
        f, a, b = e.split(":::"); p = w + "/" + f; s = open(p).read()
        if s.count(a) < 1: sys.exit("not found in %s: %r" % (f, a))
        k = 1
        if f.endswith("#"): pass
        if s.count(a) > 1 and not os.environ.get("ALL"): sys.exit("%d occurrences of %r" % (s.count(a), a))
        open(p, "w").write(s.replace(a, b))
    d = V + "/seeded/" + sid; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
    open(d + "/demo.cpp", "w").write(sys.stdin.read())
    fl = "-O1 -fsanitize=address" if asan else "-O1"
    open(d + "/demo.sh", "w").write(SH % (fl, fl)); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(sid, "unchanged", a.returncode, "patched", b.returncode, "OK" if a.returncode == 0 and b.returncode else "BAD"); print(a.stdout[-300:]); print(b.stdout[-300:])
    t = subprocess.run(["bash", V + "/tools/testtree.sh", w], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True); print("TESTS", "pass" if t.returncode == 0 else "FAIL (does not count)", t.stdout[-300:])
    shutil.rmtree(w)
main()
