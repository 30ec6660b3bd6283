"""python3-vt tools/runpart.py <part>: generates and discharges the obligations of one proof part from /repo's current source."""
import sys, os, json, time, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
class Report:
    """status: proved | failed (the solver refutes it or the executed text violates it) | unknown"""
    def __init__(s): s.obls = []; s.functions = set(); s.assumed = set(); s.undec = []; s.solver = 0.0; s.notes = []
    def fn(s, *names):
        for n in names: s.functions.add(n)
    def assume(s, *a):
        for x in a: s.assumed.add(x)
    def obl(s, name, props, status, backend, secs=0.0, detail=None):
        s.obls.append(dict(name=name, props=list(props), status=status, backend=backend, secs=round(secs, 3), detail=detail)); s.solver += secs
    def undecided(s, why, props=()): s.undec.append(dict(why=str(why)[:600], props=list(props)))
    def from_ex(s, ex, prefix, props=None):
        """obligations collected by an executor"""
        import z3
        if ex.facts and ex.ask([f for f, _ in ex.facts], 3000) == z3.unsat: s.undecided("%s: the assumptions collected are contradictory" % prefix)
        for o in ex.obls:
            st = 'proved' if o.ok else ('failed' if not getattr(o, 'soft', False) and ('sat' in o.how.split() or o.how.startswith('z3 sat') or 'cvc5 sat' in o.how) else 'unknown')
            s.obl(prefix + ': ' + o.name, [p for p in o.props if props is None or p in props], st, o.how, o.secs, None if o.ok else (o.model or '')[:2000])
    def json(s): return dict(obls=s.obls, functions=sorted(s.functions), assumptions=sorted(s.assumed), undecided=s.undec, solver_s=round(s.solver, 2), notes=s.notes)
def main():
    name = sys.argv[1]; rep = Report(); t = time.time()
    try:
        importlib.import_module('vcg.parts.' + name.split(':')[0]).run(rep, *name.split(':')[1:])
    except Exception as e:
        rep.undecided("%s: %s" % (type(e).__name__, e)); rep.notes.append(traceback.format_exc()[-3000:])
    r = rep.json(); r['part'] = name; r['wall_s'] = round(time.time() - t, 2)
    json.dump(r, sys.stdout); sys.stdout.write("\n")
if __name__ == "__main__":
    main()
