"""builds the replay drivers once (checks rebuild whatever changed)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools import battery
for d in ("bat", "inthuff", "intmisc", "intderive"):
    exe, msg = battery.build(d); print(d, "ok" if exe else msg[:300])
