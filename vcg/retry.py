"""Retry loops: the exit does not hang on a counter but on a flag set by the body. What holds after the loop is what its last iteration
(an arbitrary one, started from any state satisfying the invariants) or the initial state established."""
import z3
from .sym import *
from .exe import Ex
from . import loops

def vbool(l, hs): return isinstance(l, z3.ExprRef) and any(n in hs for n in freevars(l))
def is_retry(s, fr, L, st0, phi0):
    tys = {i.name: i.ty for i in fr.fn.blocks[L.header].ins if i.op == 'phi'}
    if not any(t in (('i', 1), ('i', 8)) for t in tys.values()): return False
    sn = s.snapshot(); s.quiet += 1
    try:
        env = dict(fr.env); flags = {}
        for k, v in phi0.items():
            if tys[k] in (('i', 1), ('i', 8)): flags[k] = s.freshval('flag', tys[k]); fr.env[k] = flags[k]
            else: fr.env[k] = v
        es = s.block(fr, L.header, State(st0.pc, dict(st0.mem)), []); fr.env.clear(); fr.env.update(env)
    finally: s.quiet -= 1; s.restore(sn)
    if len(es) != 2 or all(e.dst in L.body for e in es): return False
    l = es[0].st.pc[len(st0.pc):]; names = {f.decl().name() for f in flags.values()}
    return len(l) == 1 and isinstance(l[0], z3.ExprRef) and freevars(l[0]) <= names and bool(freevars(l[0]))
CI = {'bit': lambda fp, v, i: z3.Or(ZI(v) == 0, ZI(v) == 1)}
def cands(s, ty): return CANDS if ty[0] == 'f' and hasattr(s.fp, 'num') else CI if ty == ('i', 8) else {}
CANDS = {'num': lambda fp, v, i: fp.num(v), 'nonneg': lambda fp, v, i: fp.o(v) >= 0, 'le': lambda fp, v, i: fp.o(v) <= fp.o(i)}
def retryloop(s, fr, L, st0, phi0, rets):
    key = ('retry', fr.fn.name, L.header, fr.path); cls, drop = s.cache.get(key, ({}, set())); maxid = Obj._n; have = key in s.cache
    def initof(var):
        if var[0] == 'phi': return phi0[var[1]]
        m = st0.mem.get(var[1]); return m.d.get(var[2], (None, UNDEF))[1] if m is not None and m.kind == 'cells' else UNDEF
    for it in range(14):
        sn = s.snapshot(); nr = len(rets)
        if not have: s.quiet += 1
        def assume(P):
            for var, c in cls.items():
                v, i = P.hv.get(var), initof(var)
                if var[0] != 'arr' and v is not None and v is not UNDEF and i is not UNDEF:
                    for nm, f in cands(s, c[-1]).items():
                        if (var, nm) not in drop: s.fact(f(s.fp, v, i), 'invariant')
        try: P = loops.run_pass(s, fr, L, st0, phi0, cls, assume=assume)
        finally:
            if not have: s.quiet -= 1
        new = loops.classify(s, fr, L, st0, phi0, cls, P, maxid)
        for var in list(new):
            if var[0] == 'arr': new[var] = pts(P, var[1], cls.get(var))
            elif new[var][0] != 'fresh': new[var] = ('fresh', None, new[var][-1])
        nd = set(drop)
        if P.bm is not None:
            for var, c in new.items():
                if var[0] == 'arr' or not cands(s, c[-1]): continue
                i, b = initof(var), (P.bm[1][var[1]] if var[0] == 'phi' else P.bm[0].mem[var[1]].d[var[2]][1])
                if i is UNDEF or b is UNDEF: nd |= {(var, nm) for nm in cands(s, c[-1])}; continue
                for nm, f in cands(s, c[-1]).items():
                    if (var, nm) in nd: continue
                    if not s.holds(f(s.fp, i, i), st0.pc, 3000) or (var in cls and not s.holds(f(s.fp, b, i), P.bm[0].pc, 8000)): nd.add((var, nm))
        if loops.clseq(new, cls) and nd == drop:
            if have: break
            have = True; s.cache[key] = (cls, drop); s.restore(sn); continue
        s.restore(sn); del rets[nr:]; cls, drop = new, nd; have = False
    else: raise Unsupported("retry loop %s of %s: no invariant" % (L.header, fr.fn.name))
    if not s.quiet:
        for var, c in cls.items():
            if var[0] == 'arr' or not cands(s, c[-1]): continue
            i, b = initof(var), (P.bm[1][var[1]] if var[0] == 'phi' else P.bm[0].mem[var[1]].d[var[2]][1]) if P.bm else None
            for nm, f in cands(s, c[-1]).items():
                if (var, nm) in drop or i is UNDEF: continue
                what = 'retry loop: %s' % {'bit': 'a flag is 0 or 1', 'num': 'the tolerance is a number', 'nonneg': 'the tolerance is not negative', 'le': 'the tolerance does not exceed the initial one'}[nm]
                soft(s, what + ' (entry)', f(s.fp, i, i), st0.pc, getattr(s, 'clprops', ())); b is not None and soft(s, what + ' (kept)', f(s.fp, b, i), P.bm[0].pc, getattr(s, 'clprops', ()))
    # exits: at once; through the header after some iteration; from the middle of some iteration
    def header(st, phi):
        env = dict(fr.env); fr.env.update(phi); es = s.block(fr, L.header, State(st.pc, dict(st.mem)), rets); fr.env.clear(); fr.env.update(env); return es
    if not s.quiet and P.bm is not None: soft(s, 'the retry loop terminates', terminates(s, fr, L, P, header), (), ('C14',))
    es = header(st0, phi0); outs = [e for e in es if e.dst not in L.body]; go = [e for e in es if e.dst in L.body]
    if go:
        first = go[0].st.pc[len(st0.pc):]; k = len(st0.pc)
        def more(pc): return pc[:k] + tuple(first) + tuple(pc[k:])
        late = [e for e in P.out if e.src != L.header]
        if P.bm is not None: late += [e for e in header(*P.bm) if e.dst not in L.body]
        for e in late: e.st.pc = more(e.st.pc)
        outs += late
        for st, v in P.rets: st.pc = more(st.pc)
        rets += P.rets; s.logs[-1] += [e[:3] + (more(e[3]),) + e[4:] if e[0] in ('st', 'stall', 'cell') else e for e in P.log]; s.recs[-1] += P.recs
    return outs
def soft(s, *a):
    if not s.oblige(*a): s.obls[-1].soft = True
def terminates(s, fr, L, P, header):
    """a counter that grows by one per iteration is bounded by a constant whenever another iteration follows"""
    go = [e for e in header(*P.bm) if e.dst in L.body]
    if not go: return True
    ks = set()
    for b in L.body:
        for i in fr.fn.blocks[b].ins:
            if i.op == 'icmp': ks |= {v[1] for v in i.a if isinstance(v, tuple) and len(v) == 2 and v[0] == 'ic'}
    for var, h in P.hv.items():
        b = P.bm[1].get(var[1]) if var[0] == 'phi' else None
        if b is None or not (isinstance(h, z3.ExprRef) and z3.is_int(h)) or not (isc(psub(b, h)) and psub(b, h) >= 1): continue
        for k in sorted(ks):
            if s.holds(ZI(b) <= k + 1, go[0].st.pc, 5000): return True
    return False
def pts(P, o, old):
    """array stored to at positions that do not change during the loop"""
    ix = []
    for e in P.log:
        if e[0] == 'loop' and loops.writes(e[1], o) or e[0] == 'stall' and e[1] is o: return ('arr',)
        if e[0] == 'st' and e[1] is o:
            if not isc(e[2]) and freevars(e[2]) & P.names: return ('arr',)
            if not any(same(e[2], x) for x in ix): ix.append(e[2])
    return ('arr', 'pts', tuple(ix))
