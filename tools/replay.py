"""python3 tools/replay.py <replay.json>: reruns one failing case on the real library"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools import battery
r = json.load(open(sys.argv[1]))
if "driver" not in r: print(json.dumps(r, indent=1)); sys.exit(1)
exe, msg = battery.build(r["driver"]); print(msg)
res = battery._one
R = battery.Result(); import threading, time
battery._one(exe, r["group"], r["seed"], r["index"], 1, r["maxdim"], 60, time.time() + 120, R, threading.Lock(), threading.Event())
for f in R.fails: print(f)
sys.exit(1 if R.fails else 0)
