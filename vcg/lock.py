"""Relational (lockstep) verification of a decoder against the encoder that produced its input: every decoder loop that
walks a decoded stream is aligned with the encoder loop that wrote it, coupling invariants are guessed and checked."""
import z3
from .sym import *
from .exe import *
from .loops import run_pass, classify, clseq, finish, symloop, subst, writes, solve_exit, regmono

class Couple:
    def __init__(s, lk, R, assign, arrs): s.lk, s.R, s.assign, s.arrs = lk, R, assign, arrs; s.reg = {}
    def value(s, P, var, init, ty, c):
        if c and c[0] in ('lin', 'clin'): return None
        a = s.assign.get(var)
        if a is None: return None
        kind, evar = a
        if kind == 'delta':
            e_init, e_h = evinit(s.R, evar), s.R.P.hv[evar]
            d = psub(e_h.idx if isinstance(e_h, Ptr) else e_h, e_init.idx if isinstance(e_init, Ptr) and e_init.es == e_h.es else (0 if isinstance(e_init, Ptr) else e_init))
            if isinstance(init, Ptr):
                es = c[3] if c and c[0] == 'delta' else (c[1] if c else None); q = s.lk.ex.rescale(init, es) if es else init
                if q is None: return None
                return Ptr(q.obj, padd(q.idx, d), q.es)
            return padd(init, d)
        if kind == 'eq': return s.R.P.hv[evar]
        return None
    def array(s, P, o, A0):
        a = s.arrs.get(o)
        if a is None: return None
        if a[0] == 'full': return s.R.P.hv[('arr', a[1])]
        if a[0] == 'prefix':
            A = s.lk.ex.freshA('%s_at' % o.name.strip('%'), o.ety); P.hsyms.add(A.decl().name())
            s.lk.regprefix(A, a[1], a[2], a[3], s.R.P.hv[('arr', a[1])] if ('arr', a[1]) in s.R.P.hv else s.R.P.hst.mem[a[1]].d)
            return A
def evinit(R, var):
    if var[0] == 'phi': return R.phi0[var[1]]
    return R.st0.mem[var[1]].d.get(var[2], (None, UNDEF))[1]

class Lock:
    def __init__(s, ex, recs, payload, hook=None):
        s.ex, s.stack, s.payload, s.hook = ex, [recs], payload, hook; s.props = ('C13', 'C03'); s.cache = {}; s.prefix = {}; s.matched = []; s.fail = []; s.why = []
    def regprefix(s, A, oe, F, shift, Ae):
        ex = s.ex; s.prefix[A.decl().name()] = (oe, F, shift, Ae)
        def inst(i, t, F=F, shift=shift, Ae=Ae):
            v = ex.sel(Ae, padd(i, shift)); v = ZI(v) if isc(v) else v
            ex.fact(z3.Implies(z3.And(ZI(i) >= 0, ZI(i) < ZI(F)), t == v), 'coupling')
        ex.summ[A.decl().name()] = inst
    def loop(s, fr, L, st0, phi0, rets):
        ex = s.ex; key = (fr.fn.name, L.header, fr.path)
        cands = s.stack[-1]
        for R in cands:
            if not any(writes(R, o) for o in s.payload): continue
            if R.P.bm is None or not R.header_only or not hasattr(R, 'exit'): continue
            r = s.attempt(fr, L, st0, phi0, rets, R, key)
            if r is not None: return r
        s.stack.append([])
        try: return symloop(ex, fr, L, st0, phi0, rets)
        finally: s.stack.pop()
    def attempt(s, fr, L, st0, phi0, rets, R, key):
        ex = s.ex; ckey = (key, id(R)); maxid = Obj._n
        if s.cache.get(ckey) == 'no': return None
        def no(why):
            s.why.append("%s vs %s: %s" % (L.header, R.header, why)); s.cache[ckey] = 'no'; return None
        if not ex.feasible(st0.pc + R.st0.pc): return None
        # the encoder loop must be on the path the decoder is on
        need = [l for l in R.st0.pc if not any(same(l, c) for c in ex.ctx) and not any(same(l, c) for c in st0.pc)]
        if need and not ex.holds(band(*need), st0.pc): return None
        # 1. what the decoder loop changes
        if key not in ex.modcache:
            sn = ex.snapshot(); ex.quiet += 1; m, ex.match = ex.match, None; ex.logs.append([]); ex.recs.append([])
            try: symloop(ex, fr, L, st0, phi0, [])
            finally: ex.quiet -= 1; ex.match = m; ex.restore(sn); ex.logs.pop(); ex.recs.pop()
        cls = {k: v for k, v in ex.modcache[key].items() if k[0] == 'phi' or k[1] in st0.mem or k[1].id <= maxid}
        epc = R.P.bm[0].pc
        def go(assign, arrs):
            C = Couple(s, R, assign, arrs)
            s.stack.append(R.children); ex.ctx.append(None); ctx0 = list(ex.ctx[:-1]); ex.ctx[:] = ctx0 + list(epc)
            try: P = run_pass_n(ex, fr, L, st0, phi0, cls, C, R)
            finally: ex.ctx[:] = ctx0; s.stack.pop()
            return P
        def proves(g, P, timeout=None):
            return g is True or ex.ask([f for f, _ in ex.facts] + list(ex.ctx) + list(epc) + list(P.bm[0].pc) + [bnot(g)], timeout or 6000) == z3.unsat
        hit = s.cache.get(ckey)
        sig = s.sig(cls, st0)
        if hit is not None and (hit[2] != sig or not s.entries(hit, st0, phi0, R)): hit = None      # found under another guess for an enclosing loop
        if hit is not None:
            cls = dict(hit[3]); sn = ex.snapshot(); ex.quiet += 1
            try:
                P = go(*hit[:2]); new = classify(ex, fr, L, st0, phi0, cls, P, maxid) if P.bm is not None else None
                if new is None or s.strides(cls, new): hit = None; cls = {k: v for k, v in ex.modcache[key].items() if k[0] == 'phi' or k[1] in st0.mem or k[1].id <= maxid}
            finally: ex.quiet -= 1; ex.restore(sn)
        if hit is None:
            assign, arrs, cand = {}, {}, {}
            for var, c in cls.items():
                if var[0] == 'arr': continue
                if c[0] in ('delta', 'fresh'):
                    ty = c[-1]; lst = []
                    init = phi0[var[1]] if var[0] == 'phi' else st0.mem[var[1]].d.get(var[2], (None, UNDEF))[1]
                    if init is UNDEF: continue
                    for ev, ec in R.cls.items():
                        if ev[0] == 'arr' or R.P.hv.get(ev) is UNDEF: continue
                        if ty[0] in ('p', 'i') and ec[-1][0] in ('p', 'i') and ec[-1] != ('i', 1) and ty != ('i', 1) and ec[0] in ('delta', 'fresh') and s.canrel(R, ev, ty): lst.append(('delta', ev))
                        elif ty == ec[-1] and ty[0] != 'p' and same(init, evinit(R, ev)): lst.append(('eq', ev))
                    cand[var] = lst
                    if lst: assign[var] = lst.pop(0)
            acand = {}
            for var in cls:
                if var[0] != 'arr': continue
                o = var[1]; lst = []
                A0 = s.arr0(st0, o)
                for ev in R.cls:
                    if ev[0] == 'arr' and ev[1].ety == o.ety:
                        E0 = s.arr0(R.st0, ev[1])
                        if isinstance(A0, z3.ExprRef) and isinstance(E0, z3.ExprRef) and A0.eq(E0): lst.append(('full', ev[1]))
                acand[o] = lst
                if lst: arrs[o] = lst.pop(0)
            pre_done = set(); nstride = 0
            for it in range(24):
                sn = ex.snapshot(); ex.quiet += 1
                try:
                    P = go(assign, arrs); bad, hard = [], None
                    if P.bm is None: hard = 'no iteration possible'
                    else:
                        new = classify(ex, fr, L, st0, phi0, cls, P, maxid)
                        if any(k not in cls for k in new if k[0] == 'arr'): hard = 'more state'
                        moved = s.strides(cls, new)
                        if moved and nstride < 4 and all(new[k][0] == cls[k][0] for k in moved): nstride += 1; cls.update({k: new[k] for k in moved}); continue      # the strides of this pass
                        if moved: hard = 'stride of %s' % (moved[0],)
                        bad = [v for v in assign if not proves(s.goal(C_var(P, v), v, R, assign, st0, phi0), P)] if not hard else []
                        abad = [o for o in arrs if not s.arrgoal(P, o, R, arrs[o], proves, st0)] if not hard else []
                        # new prefix candidates from the decoder's own stores
                        pres = {}
                        if not hard:
                            for var in cls:
                                if var[0] == 'arr' and var[1] not in pre_done and (var[1] not in arrs or var[1] in abad):
                                    F = s.front(P.log, var[1])
                                    if F is None: continue
                                    l = []
                                    for ev in R.cls:
                                        if ev[0] == 'arr' and ev[1].ety == var[1].ety:
                                            Fe = s.front(R.log, ev[1])
                                            if Fe is not None:
                                                sh = psub(Fe, F)
                                                if not (vfree2_(sh) & P.names) and s.entry_ok(st0, R, var[1], ev[1], F, sh): l.append(('prefix', ev[1], F, sh))
                                    if l: pres[var[1]] = l
                finally: ex.quiet -= 1; ex.restore(sn)
                if __import__("os").environ.get("LKDBG"): print("  it",it,L.header,"assign",{str(k):v for k,v in assign.items()},"arrs",{o.name:a for o,a in arrs.items()},"bad",bad,"abad",[o.name for o in abad],hard)
                if hard: return no(hard)
                ch = False
                for v in bad:
                    ch = True
                    if cand[v]: assign[v] = cand[v].pop(0)
                    else: del assign[v]
                for o in abad:
                    ch = True
                    if acand[o]: arrs[o] = acand[o].pop(0)
                    else: arrs.pop(o)
                for o, l in pres.items():
                    pre_done.add(o); acand[o] = l; arrs[o] = acand[o].pop(0); ch = True
                if not ch: break
            else: return no('no stable coupling')
            # same number of iterations
            hit = (dict(assign), dict(arrs), sig, dict(cls))
        assign, arrs = hit[:2]
        # trip counts
        sn = ex.snapshot(); P = go(assign, arrs)
        if P.bm is None or any(e.src != L.header for e in P.out) or P.rets or len(P.out) != 1: ex.restore(sn); return no('exits')
        dl = P.out[0].st.pc[len(st0.pc):]; el = R.exitlit
        if len(dl) != 1 or el is None: ex.restore(sn); return no('exit condition')
        same_trip = same(dl[0], el)
        if not same_trip: same_trip = ex.ask([f for f, _ in ex.facts] + list(ex.ctx) + list(st0.pc) + list(R.st0.pc) + [z3.Xor(ZB(dl[0]), ZB(el))], 8000) == z3.unsat
        if not same_trip: ex.restore(sn); return no('trip count %s vs %s' % (dl[0], el))
        s.cache[ckey] = hit
        nm = '%s loop %s <-> %s' % (fr.fn.name, L.header, R.header)
        if not ex.quiet:
            ex.oblige('same number of iterations: ' + nm, True, (), s.props)
            for v in assign: ex.oblige('coupling of %s kept: %s' % (v[1] if v[0] == 'phi' else v[1:], nm), s.goal(C_var(P, v), v, R, assign, st0, phi0), P.bm[0].pc, s.props, extra=epc)
            for o in arrs: ex.obls.append(Obl('coupling of array %s (%s) kept: %s' % (o.name, arrs[o][0], nm), s.props, s.arrgoal(P, o, R, arrs[o], proves, st0), 'z3', 0.0))
        for v in cls:
            if cls[v][0] == 'lin': pass
        Rd = LoopRec(); Rd.enc = R; Rd.assign, Rd.arrs = assign, arrs; Rd.F = {o: a for o, a in arrs.items() if a[0] == 'prefix'}
        if s.hook: s.hook(s, R, P, Rd, fr)
        if not ex.quiet: s.matched.append(nm)
        outs = finish(ex, fr, L, st0, phi0, cls, P, rets, exitmap=R.exitmap, rec=Rd)
        Rd.dec = True
        for e in outs:
            for o, a in arrs.items():
                A = e.st.mem[o].d
                if a[0] == 'prefix' and z3.is_const(A):
                    m = R.exit.st.mem[a[1]].d
                    F = subst(a[2], dict(R.exitmap, **{})); s.regprefix(A, a[1], F, a[3], m)
        return outs
    def strides(s, cls, new):
        """variables that do not move by the stride assumed for this pass"""
        return [k for k in new if cls.get(k, ('',))[0] in ('lin', 'clin') and not same(new[k][1] if new[k][0] == cls[k][0] else None, cls[k][1])]
    def sig(s, cls, st0):
        r = []
        for var in cls:
            if var[0] == 'arr':
                A = s.arr0(st0, var[1]); p = s.prefix.get(A.decl().name()) if isinstance(A, z3.ExprRef) and z3.is_const(A) else None
                r.append((var[1].id, p[0].id if p else None))
        return tuple(r)
    def entries(s, hit, st0, phi0, R):
        """the coupling holds when the loops are entered"""
        for v, (kind, ev) in hit[0].items():
            if kind == 'eq':
                init = phi0[v[1]] if v[0] == 'phi' else st0.mem[v[1]].d.get(v[2], (None, UNDEF))[1]
                if init is UNDEF or not same(init, evinit(R, ev)): return False
        for o, a in hit[1].items():
            A, E = s.arr0(st0, o), s.arr0(R.st0, a[1])
            if a[0] == 'full' and not (isinstance(A, z3.ExprRef) and isinstance(E, z3.ExprRef) and A.eq(E)): return False
            if a[0] == 'prefix' and not s.entry_ok(st0, R, o, a[1], a[2], a[3]): return False
        return True
    def arr0(s, st, o):
        m = st.mem.get(o)
        if m is not None and m.kind == 'arr': return m.d
        if m is not None and m.kind == 'raw' and o.ety is not None: return s.ex.to_arr(State((), dict(st.mem)), o, o.ety).d
        return getattr(o, 'init', None)
    def canrel(s, R, ev, ty):
        h, i = R.P.hv.get(ev), evinit(R, ev)
        if isinstance(h, Ptr): return ty[0] == 'p' and isinstance(i, Ptr) and i.obj is h.obj and s.ex.rescale(i, h.es) is not None
        return ty[0] != 'p' and isinstance(h, (int, z3.ExprRef)) and not z3.is_bool(h) and i is not UNDEF or (ty[0] == 'p' and R.cls[ev][0] == 'delta')
    def front(s, log, o):
        """first position stored to in an iteration, in terms of the state at its start"""
        idx = None
        for e in log:
            if e[1] is o and e[0] == 'stall': return None
            if e[0] == 'st' and e[1] is o:
                if idx is None: idx = e[2]
                elif not same(idx, e[2]): return None
            if e[0] == 'loop' and writes(e[1], o):
                Rn = e[1]; F = s.front(Rn.log, o)
                if F is None or idx is not None: return None
                return subst(F, {Rn.n.decl().name(): (Rn.n, z3.IntVal(0))})
        return idx
    def entry_ok(s, st0, R, od, oe, F, sh):
        F0 = subst(F, {R.n.decl().name(): (R.n, z3.IntVal(0))})
        if same(F0, 0): return True
        m = st0.mem.get(od); Ae = R.st0.mem[oe].d if oe in R.st0.mem else oe.init
        if m is None or m.kind != 'arr': return False
        p = s.prefix.get(m.d.decl().name()) if z3.is_const(m.d) else None
        if p is not None and p[0] is oe and same(p[1], F0) and same(p[2], sh) and isinstance(p[3], z3.ExprRef) and p[3].eq(Ae): return True
        # what was stored before the loops, position by position
        ex = s.ex; q = z3.Int('entry_position'); x, y = ex.sel(m.d, q), ex.sel(Ae, padd(q, sh))
        return ex.holds(z3.Implies(z3.And(q >= 0, q < ZI(F0)), s.eqv(x, y)), tuple(st0.pc) + tuple(R.st0.pc))
    def goal(s, db, v, R, assign, st0, phi0):
        kind, ev = assign[v]
        eb = R.P.bm[1][ev[1]] if ev[0] == 'phi' else R.P.bm[0].mem[ev[1]].d[ev[2]][1]
        ei = evinit(R, ev); di = phi0[v[1]] if v[0] == 'phi' else st0.mem[v[1]].d[v[2]][1]
        if kind == 'eq':
            return s.eqv(db, eb)
        def delta(b, i):
            if isinstance(b, Ptr):
                j = s.ex.rescale(i, b.es)
                return psub(b.idx, j.idx) if j is not None else None
            return psub(b, i)
        if isinstance(db, (PtrIte,)) or isinstance(eb, PtrIte) or (isinstance(db, Ptr) and db.obj is not di.obj): return False
        x, y = delta(db, di), delta(eb, ei)
        if x is None or y is None: return False
        return s.ex.ints.icmp('eq', x, y, 64)
    def eqv(s, a, b):
        if same(a, b): return True
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return a == b
        if a is UNDEF or b is UNDEF: return False
        A, B = (ZB(a), ZB(b)) if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) else (ZI(a), ZI(b))
        return A == B
    def arrgoal(s, P, o, R, a, proves, st0):
        Ab = P.bm[0].mem[o].d; eo = a[1]; Eb = R.P.bm[0].mem[eo].d
        if a[0] == 'full':
            if Ab.eq(Eb): return True
            return proves(s.arreq(Ab, Eb), P, 15000)
        F, sh = a[2], a[3]; n = R.n
        Fn = subst(F, {n.decl().name(): (n, n + 1)})
        ents = [e for e in P.log if e[0] in ('st', 'stall') and e[1] is o]; nested = [e[1] for e in P.log if e[0] == 'loop' and writes(e[1], o)]
        eents = [e for e in R.log if e[0] in ('st', 'stall') and e[1] is eo]; en = [e[1] for e in R.log if e[0] == 'loop' and writes(e[1], eo)]
        if not s.entry_ok(st0, R, o, eo, F, sh): return False
        if any(e[0] == 'stall' for e in ents + eents): return False
        if not nested:
            if en or not all(same(e[2], F) for e in ents): return False
            for e in eents:
                if not same(psub(e[2], sh), F) and not s.ex.holds(s.ex.ints.icmp('sge', psub(e[2], sh), F, 64), e[3]): return False
            if not same(psub(Fn, F), 1): return False
            x, y = s.ex.sel(Ab, F), s.ex.sel(Eb, padd(F, sh))
            return proves(s.eqv(x, y), P, 15000)
        if len(nested) != 1 or ents: return False
        p = s.prefix.get(Ab.decl().name()) if z3.is_const(Ab) else None
        if p is None: return False
        return p[0] is eo and s.ex.holds(s.ex.ints.icmp('eq', p[1], Fn, 64), P.bm[0].pc) and same(p[2], sh) and p[3].eq(Eb) and not eents
    def arreq(s, A, B):
        """equality of store chains over the same base, elementwise"""
        def chain(A):
            ch = []
            while z3.is_store(A): ch.append(A.arg(1)); A = A.arg(0)
            return A, ch
        a, ca = chain(A); b, cb = chain(B)
        if a.eq(b):
            gs = []
            for i in ca + cb: gs.append(z3.Select(A, i) == z3.Select(B, i))
            return z3.And(*gs) if gs else True
        return A == B
def vfree2_(x): return frozenset() if isc(x) else freevars(x)
def C_var(P, v):
    return P.bm[1][v[1]] if v[0] == 'phi' else P.bm[0].mem[v[1]].d[v[2]][1]
def run_pass_n(ex, fr, L, st0, phi0, cls, C, R):
    P = run_pass(ex, fr, L, st0, phi0, cls, C, R.n); P.names |= R.P.names   # the encoder's per-iteration symbols vary with the iteration too
    return P

# ------------------------------------------------------------------ final contents of arrays written at a monotone cursor
def final_facts(ex, R, o, FIN, nested=False):
    own = hasattr(R, 'exit') and R.exit.st.mem.get(o) is not None and R.exit.st.mem[o].kind == 'arr'
    if not nested and not (z3.is_const(FIN) and FIN.decl().name() not in ex.summ and not (own and FIN.eq(R.exit.st.mem[o].d))):
        # the facts are about what this loop leaves behind; what comes later is in the stores and loops after it
        if not own: return False
        FIN = R.exit.st.mem[o].d
    k = len(ex.facts); r = final_facts1(ex, R, o, FIN)
    if r is False: ex.facts[k:] = [f for f in ex.facts[k:] if f[1] not in ('final contents', 'monotone cursor')]
    if r and not nested and z3.is_const(FIN) and o in getattr(R, 'cursor', {}):      # several loops: each goes on where the one before stopped, or beyond
        key = ('finfacts', FIN.decl().name(), o.id); prev = ex.cache.get(key)
        if prev is not None and prev[0] is not R and not ex.holds(ex.ints.icmp('sle', prev[1], R.cursor[o][0], 64), R.st0.pc): return False
        ex.cache[key] = (R, R.cursor[o][1]); ex.keep.append(FIN)
    return r
def final_facts1(ex, R, o, FIN):
    """facts FIN[i] = value for every position written in an iteration of R; returns False when the writes are not
    provably at ever increasing positions"""
    P = R.P
    if P.bm is None: return True
    direct = [e for e in P.log if e[0] == 'st' and e[1] is o]; nest = [e[1] for e in P.log if e[0] == 'loop' and writes(e[1], o)]
    if any(e[0] == 'stall' and e[1] is o for e in P.log) or not R.header_only: return False
    bst, bphi = P.bm; bpc = list(bst.pc)
    cur = []
    for var in R.cls:
        h = P.hv.get(var)
        if var[0] == 'arr': continue
        b = bphi[var[1]] if var[0] == 'phi' else bst.mem[var[1]].d[var[2]][1]
        if var[0] == 'cell' and isinstance(var[2], tuple) and getattr(o, 'vec', None) == (var[1], var[2][1]): cur.insert(0, (h, b))
        elif isinstance(h, Ptr) and h.obj is o and isinstance(b, Ptr) and b.obj is o:
            es = tsize(o.ety); x, y = ex.rescale(h, es), ex.rescale(b, es)
            if x and y: cur.append((x.idx, y.idx))
    def lin_cursor():
        # position linear in the iteration counter
        for e in direct:
            nm = R.n.decl().name(); nxt = subst(e[2], {nm: (R.n, R.n + 1)}) if not isc(e[2]) else e[2]
            if not same(nxt, e[2]) and not (freevars(e[2]) & (P.names - {nm}) if not isc(e[2]) else False): yield (e[2], nxt)
    # intervals of the nested loops in terms of their cursor
    ivs = [(e[3], e[2], padd(e[2], 1)) for e in direct]
    for Rn in nest:
        r = final_facts(ex, Rn, o, FIN, True)
        if r is False: return False
        c = Rn.cursor[o]; ivs.append((Rn.st0.pc, c[0], c[1]))
    def lin_nested():
        nm = R.n.decl().name()
        for pc, lo, hi in ivs[len(direct):]:
            if not isc(lo) and not (freevars(lo) & (P.names - {nm})):
                nxt = subst(lo, {nm: (R.n, R.n + 1)})
                if not same(nxt, lo): yield (lo, nxt)
    for h, b in cur + list(lin_cursor()) + list(lin_nested()):
        if not all(ex.holds(band(ex.ints.icmp('sle', h, lo, 64), ex.ints.icmp('sle', hi, b, 64)), tuple(pc) + tuple(bpc)) for pc, lo, hi in ivs): continue
        # later entries never touch what a nested loop wrote
        good = True
        order = [e for e in P.log if (e[0] == 'st' and e[1] is o) or (e[0] == 'loop' and e[1] in nest)]
        for k, e in enumerate(order):
            if e[0] != 'loop': continue
            c = e[1].cursor[o]
            for g in order[k+1:]:
                lo, pc = (g[2], g[3]) if g[0] == 'st' else (g[1].cursor[o][0], g[1].st0.pc)
                if ex.feasible(tuple(e[1].st0.pc) + tuple(pc)) and not ex.holds(ex.ints.icmp('sge', lo, c[1], 64), tuple(e[1].st0.pc) + tuple(pc)): good = False
        if not good: continue
        A = bst.mem[o].d; seen = []
        for e in direct:
            if any(same(e[2], x) for x in seen): continue
            seen.append(e[2]); v = ex.sel(A, e[2]); idx = ZI(e[2])
            inside = ex.ints.icmp('slt', e[2], b, 64)
            ex.fact(z3.Implies(ZB(band(*(bpc + [inside]))), z3.Select(FIN, idx) == (ZI(v) if isc(v) else v)), 'final contents')
        # cursor at loop entry and exit
        ent = subst_init(ex, R, h); xit = subst(h, R.exitmap)
        if ex.holds(ex.ints.icmp('sle', h, b, 64), bpc):    # the cursor never moves back: where an iteration leaves it is at most where the loop leaves it
            ex.fact(z3.Implies(ZB(band(*bpc)) if bpc else z3.BoolVal(True), ZB(ex.ints.icmp('sle', b, xit, 64))), 'monotone cursor')
        if hasattr(R, 'exit') and R.exit.st.mem.get(o) is not None and R.exit.st.mem[o].kind == 'arr' and z3.is_const(R.exit.st.mem[o].d) and R.exit.st.mem[o].d.decl().name() not in ex.summ:
            m0 = R.st0.mem.get(o); regmono(ex, R.exit.st.mem[o].d, m0.d if m0 is not None and m0.kind == 'arr' else o.init, xit, ent)
        R.cursor = getattr(R, 'cursor', {}); R.cursor[o] = (ent, xit); return True
    return False
def subst_init(ex, R, h):
    mp = {R.n.decl().name(): (R.n, z3.IntVal(0))}
    for var, d in R.P.dl.items(): mp[d.decl().name()] = (d, z3.IntVal(0))
    return subst(h, mp) if not isc(h) else h
