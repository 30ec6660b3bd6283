"""human-readable output of one part"""
import sys, json, subprocess, os, collections
here = os.path.dirname(os.path.abspath(__file__))
p = subprocess.run(["python3-vt", here + "/runpart.py", sys.argv[1]], stdout=subprocess.PIPE, text=True)
r = json.loads(p.stdout.strip().splitlines()[-1])
c = collections.Counter(o['status'] for o in r['obls']); pc = collections.Counter(x for o in r['obls'] for x in o['props'])
print(r['part'], dict(c), 'wall', r['wall_s'], 'solver', r['solver_s'], dict(pc))
for o in r['obls']:
    if '-v' in sys.argv or o['status'] != 'proved': print('  ', o['status'], o['name'][:200], o['backend'], o['secs'], (o['detail'] or '')[:600] if '-m' in sys.argv else '')
for u in r['undecided']: print('  UNDECIDED', u)
for n in r['notes']: print(n)
if '-v' in sys.argv: print('functions', r['functions']); print('assume', r['assumptions'])
