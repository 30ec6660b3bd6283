#!/bin/bash
# developer helper: tools/testtree.sh TREE : builds TREE like build.sh does and runs the repository's stable tests on it
t=$1; b=$t/_build; (CC=gcc CXX=g++ cmake -S $t -B $b -G Ninja -DCMAKE_BUILD_TYPE= -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_PROJECT_INCLUDE=/opt/vp/cpsz/without_ftk.cmake && ninja -C $b) > $t/_log 2>&1 || { tail -20 $t/_log; echo BUILD FAILED; exit 1; }
w=$b/w; mkdir -p $w; python3 /opt/vp/cpsz/run_programs.py $b/bin $w > $w/results.txt 2>$w/err
python3 - $w/results.txt <<'P'
import sys, json
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set(l.split(None,1)[1].strip() for l in open(sys.argv[1]) if l.startswith('PASS'))
bad=sorted(st-ok); print("tests: %d stable, %d failing"%(len(st),len(bad)), bad[:4]); sys.exit(bool(bad))
P
