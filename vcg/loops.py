"""Loops: concrete unrolling, or cutting at the header with inferred and checked invariants."""
import z3
from .sym import *
from .exe import Ex, LoopRec, MAXUNROLL, PtrInt, z3_bv

def subst(v, mp):
    if not mp: return v
    if isinstance(v, Ptr): 
        i = subst(v.idx, mp); return v if i is v.idx else Ptr(v.obj, i, v.es)
    if isinstance(v, PtrIte): return PtrIte(subst(v.c, mp), subst(v.a, mp), subst(v.b, mp))
    if isinstance(v, PtrInt): return PtrInt(subst(v.p, mp))
    if isinstance(v, Agg): return Agg([subst(x, mp) for x in v.v])
    if isinstance(v, z3.ExprRef):
        fv = freevars(v)
        m = [(a, b) for n, (a, b) in mp.items() if n in fv]
        if not m: return v
        r = z3.substitute(v, *m)
        if z3.is_int(r): r = norm(r)
        elif z3.is_bool(r):
            q = z3.simplify(r) if not z3.is_quantifier(r) else r
            if z3.is_true(q): return True
            if z3.is_false(q): return False
        return r
    if isinstance(v, tuple): return tuple(subst(x, mp) for x in v)
    return v
def subst_mem(m, mp):
    if m.kind == 'cells': return Mem('cells', {k: (t, subst(x, mp)) for k, (t, x) in m.d.items()})
    if m.kind == 'arr': return Mem('arr', subst(m.d, mp))
    if m.kind == 'tok': return Mem('tok', tuple((subst(t[0], mp), subst(t[1], mp), subst(t[2], mp), subst(t[3], mp)) for t in m.d))
    return m
def lits_implied(pc0, pc): return pc[len(pc0):]

def vfree(v):
    if isinstance(v, Ptr): return freevars(v.idx)
    if isinstance(v, z3.ExprRef): return freevars(v)
    return frozenset()

def do_loop(s, fr, L, inedges, rets):
    m = s.merge([(e.st, e.phi) for e in inedges])
    if m is None: return []
    st0, phi0 = m
    if s.views: phi0 = {k: s.viewptr(st0, v) for k, v in phi0.items()}
    for rx, sel, spec in s.inv:
        if rx.search(s.demname(fr.fn.name)) and sel(s, fr, L): return inv.invloop(s, fr, L, st0, phi0, rets, spec)
    r = try_unroll(s, fr, L, st0, phi0, rets)
    if r is not None: return r
    if s.unroll_all:
        r = inv.forced(s, fr, L, st0, phi0, rets, s.unroll_all)
        if r is not None: return r
    if getattr(s, 'retry', False) and retry.is_retry(s, fr, L, st0, phi0): return retry.retryloop(s, fr, L, st0, phi0, rets)
    if s.match is not None:
        r = s.match.loop(fr, L, st0, phi0, rets)
        if r is not None: return r
    return symloop(s, fr, L, st0, phi0, rets)

def header_concrete(s, fr, L, st, phi):
    sn = s.snapshot(); s.quiet += 1
    try:
        env = dict(fr.env); fr.env.update(phi)
        es = s.block(fr, L.header, State(st.pc, dict(st.mem)), [])
        fr.env.clear(); fr.env.update(env)
    finally: s.quiet -= 1; s.restore(sn)
    return len(es) == 1 and len(set(fr.fn.blocks[L.header].succ)) > 1, es

def try_unroll(s, fr, L, st0, phi0, rets):
    key = ('nounroll', fr.fn.name, L.header, fr.path)
    if key in s.cache: return None
    c, _ = header_concrete(s, fr, L, st0, phi0)
    if not c: return None
    sn = s.snapshot(); outs = []; nr = len(rets); cur = (st0, phi0); log = len(s.logs[-1]); nrec = len(s.recs[-1])
    for it in range(MAXUNROLL + 1):
        if it == MAXUNROLL: break
        if it:
            c, _ = header_concrete(s, fr, L, cur[0], cur[1])
            if not c: break
        b, o, r = s.region(fr, L, L.header, None or [], prebuilt=None) if False else region_from(s, fr, L, cur[0], cur[1], rets)
        outs += o
        if not b: return outs
        m = s.merge([(e.st, e.phi) for e in b])
        if m is None: return outs
        cur = m
    s.restore(sn); del rets[nr:]; del s.logs[-1][log:]; del s.recs[-1][nrec:]
    s.cache[key] = True; return None

def region_from(s, fr, L, st, phi, rets):
    b, o, r = s.region(fr, L, L.header, [Edge(None, L.header, st, phi)])
    rets += r; return b, o, r

# ------------------------------------------------------------------ symbolic loops
def dint(s, t, bad):
    """interval [lo,hi] of an integer term in loop-invariant terms"""
    if isc(t): return t, t
    lo = hi = 0; one = getattr(s, 'onesided', False)
    for m, (c, f) in poly(t).items():
        if not f: lo += 0; 
        if not any(freevars(x) & bad for x in f):
            term = c if not f else unpoly({m: (c, f)}); a = b = term
        else:
            if len(f) != 1: return None
            x = f[0]; r = None
            if z3.is_const(x) and x.decl().name() in s.dbounds: r = s.dbounds[x.decl().name()]
            elif z3.is_app_of(x, z3.Z3_OP_ITE):
                p, q = dint(s, norm(x.arg(1)), bad), dint(s, norm(x.arg(2)), bad)
                if p and q:
                    l, h = pmin(s, p[0], q[0]), None if p[1] is None or q[1] is None else pmax(s, p[1], q[1])
                    if l is not None and h is not None: r = (l, h)
            if r is not None and one and (r[1] is None or vfree2(r[1]) & bad): r = (r[0], None)
            if r is None or vfree2(r[0]) & bad or (r[1] is not None and vfree2(r[1]) & bad) or (r[1] is None and c < 0): return None
            a, b = (pmul(c, r[0]), None if r[1] is None else pmul(c, r[1])) if c > 0 else (pmul(c, r[1]), pmul(c, r[0]))
        lo, hi = padd(lo, a), None if hi is None or b is None else padd(hi, b)
    return lo, hi
def vfree2(x): return frozenset() if isc(x) else freevars(x)
def pmin(s, a, b):
    d = psub(a, b)
    if isc(d): return a if d <= 0 else b
    if s.ints.nn(d): return b
    if s.ints.nn(psub(b, a)): return a
    return None
def pmax(s, a, b):
    r = pmin(s, a, b)
    return None if r is None else (b if same(r, a) else a)

class Pass: pass
def run_pass(s, fr, L, st0, phi0, cls, couple=None, n=None, assume=None):
    """execute one arbitrary iteration from a header state described by cls"""
    P = Pass(); P.f0 = len(s.facts); P.names = set(); s.fresh_in.append(P.names)
    try:
        nname = s.fresh_name('n_' + L.header.strip('%').replace('.', '_')) if n is None else n.decl().name()
        P.n = n if n is not None else (z3.Int(nname) if isinstance(s.ints, IntMath) else z3.BitVec(nname, 64))
        if n is None and isinstance(s.ints, IntMath): s.ints.nnv.add(nname); s.fact(P.n >= 0, 'iteration')
        st = State(st0.pc, dict(st0.mem)); phi = {}; P.hv = {}; P.dl = {}; P.hsyms = {nname}
        def hval(var, init, ty):
            c = cls.get(var)
            if couple is not None:
                r = couple.value(P, var, init, ty, c)
                if r is not None: P.hv[var] = r; return r
            nm = str(var[1] if var[0] == 'phi' else '%s_%s' % (var[1].name, var[2])).strip('%')
            if c and c[0] in ('lin', 'clin'):
                if isinstance(init, Ptr):
                    q = s.rescale(init, c[2]) if c[2] else init
                    v = Ptr(q.obj, s.ints.add(q.idx, s.ints.mul(P.n, c[1], 64), 64), q.es)
                else: v = s.ints.add(init, s.ints.mul(P.n, c[1], 64), 64)
            elif c and c[0] == 'delta':
                d = z3.Int(s.fresh_name('d_' + nm)); P.dl[var] = d
                s.dbounds[d.decl().name()] = (pmul(P.n, c[1]), None if c[2] is None else pmul(P.n, c[2])); lo, hi = s.dbounds[d.decl().name()]
                s.fact(z3.And(d >= lo, d <= hi) if hi is not None else d >= lo, 'counter bounds')
                if s.ints.nn(lo): s.ints.nnv.add(d.decl().name())
                if isinstance(init, Ptr):
                    q = s.rescale(init, c[3]) if c[3] else init
                    v = Ptr(q.obj, padd(q.idx, d), q.es)
                else: v = padd(init, d)
            elif isinstance(init, Ptr) and init.obj is not None:
                es = c[1] if c and c[1] else (s.elem(init.obj) or (guess_es(fr.fn, var[1]) if var[0] == 'phi' else None)); q = (s.rescale(init, es) if es else None) or init
                v = Ptr(q.obj, s.ints.fresh(nm, 64), q.es)
            elif isinstance(init, PtrIte): raise Unsupported("loop-carried merged pointer " + nm)
            elif init is UNDEF and ty[0] == 'p': return UNDEF
            elif isinstance(init, Ptr): v = init
            else: v = s.freshval(nm, ty)
            P.hv[var] = v
            if isinstance(v, z3.ExprRef) and z3.is_const(v): P.hsyms.add(v.decl().name())
            if isinstance(v, Ptr) and isinstance(v.idx, z3.ExprRef) and z3.is_const(v.idx): P.hsyms.add(v.idx.decl().name())
            return v
        tys = {i.name: i.ty for i in fr.fn.blocks[L.header].ins if i.op == 'phi'}
        for k, v in phi0.items(): phi[k] = hval(('phi', k), v, tys[k])
        objs = {}
        for var in cls:
            if var[0] == 'cell': objs.setdefault(var[1], []).append(var)
            elif var[0] == 'arr':
                o = var[1]; m = st.mem.get(o)
                if m is None: m = s.memof(st, o)
                if m.kind == 'raw': m = s.to_arr(st, o, o.ety)
                r = couple.array(P, o, m.d) if couple is not None else None
                if r is None and len(cls[var]) > 1 and cls[var][1] == 'pts':
                    A = m.d
                    for x in cls[var][2]: A = z3.Store(A, ZI(x), s.lift(s.freshval('%s_cell' % o.name.strip('%'), o.ety), o.ety))
                    P.hv[var] = A; st.mem[o] = Mem('arr', A); continue
                A = r if r is not None else s.freshA('%s_at' % o.name.strip('%'), o.ety)
                P.hv[var] = A; st.mem[o] = Mem('arr', A); 
                if r is None: P.hsyms.add(A.decl().name())
                if r is None and len(cls[var]) > 1: regmono(s, A, m.d, subst(cls[var][3], {cls[var][2].decl().name(): (cls[var][2], P.n)}), subst(cls[var][3], {cls[var][2].decl().name(): (cls[var][2], z3.IntVal(0))}))
        for o, vs in objs.items():
            m = s.memof(st, o); d = dict(m.d)
            for var in vs:
                t, x = d.get(var[2], (cls[var][-1], UNDEF))
                if x is UNDEF and cls[var][0] not in ('lin', 'clin', 'delta'): P.hv[var] = UNDEF; d[var[2]] = (t, UNDEF); continue
                d[var[2]] = (t, hval(var, x, t))
            st.mem[o] = Mem('cells', d)
        P.hst = State(st.pc, dict(st.mem)); P.hphi = dict(phi); P.rets = []
        if assume is not None: assume(P)
        P.f1 = len(s.facts)
        s.logs.append([]); s.recs.append([]); s.loopdepth += 1
        try: P.back, P.out, _ = region_from(s, fr, L, st, phi, P.rets)
        finally: P.log = s.logs.pop(); P.recs = s.recs.pop(); s.loopdepth -= 1
        P.fh = s.cache.get(('mark', fr.path, fr.fn.name, L.header), P.f1); P.fe = len(s.facts)
        P.bm = s.merge([(e.st, e.phi) for e in P.back]) if P.back else None
    finally: s.fresh_in.pop()
    return P

def guess_es(f, nm):
    if not hasattr(f, 'esguess'):
        f.esguess = g = {}
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == 'getelementptr' and len(i.a[2]) == 1 and i.a[1][0] == 'loc': g.setdefault(i.a[1][1], set()).add(tsize(i.a[0]))
                if i.op == 'load' and i.a[0][0] == 'loc': g.setdefault(i.a[0][1], set()).add(tsize(i.ty))
                if i.op == 'store' and i.a[1][0] == 'loc': g.setdefault(i.a[1][1], set()).add(tsize(i.ty))
        # through phis
        ch = True
        while ch:
            ch = False
            for b in f.blocks.values():
                for i in b.ins:
                    if i.op == 'phi' and i.ty == ('p',):
                        ns = [i.name] + [v[1] for v, _ in i.a if v[0] == 'loc']; u = set().union(*[g.get(x, set()) for x in ns])
                        for x in ns:
                            if u - g.get(x, set()): g[x] = set(u); ch = True
    r = f.esguess.get(nm)
    return max(r) if r else None
def absform(s, P, t, bad, u):
    """t = (n+1)*A*u for a loop-invariant A (the update is written in terms of the loop counter)"""
    nm = P.n.decl().name()
    if z3_bv(P.n) or isc(t) or z3_bv(t) or nm not in freevars(t) or (freevars(t) & bad) - {nm}: return None
    A = div_exact(subst(t, {nm: (P.n, z3.IntVal(0))}), u)
    return A if A is not None and not isc(psub(t, 0)) and same(norm(t), norm(ZI(pmul(pmul(padd(P.n, 1), A), u)))) else None
def classify(s, fr, L, st0, phi0, cls, P, maxid):
    new = {}
    if P.bm is None: return dict(cls)
    bst, bphi = P.bm; bad = P.names; P.cont = contlit(P, st0)
    def cl(var, init, h, b, ty):
        if init is UNDEF or h is UNDEF: return ('fresh', None, ty)
        if isinstance(b, (PtrIte, PtrInt)) or isinstance(init, (PtrIte, PtrInt)): return ('fresh', None, ty)
        if isinstance(b, Ptr):
            if not isinstance(h, Ptr) or b.obj is not h.obj: return ('fresh', None, ty)
            es = s.elem(b.obj) or b.es; hb = h.byteoff() if h.es != b.es else None
            if h.es == b.es: d = s.ints.sub(b.idx, h.idx, 64); u = b.es
            else:
                d = psub(b.byteoff(), h.byteoff()); u = 1
            if u != es:
                e2 = div_exact(pmul(d, u), es) if not z3_bv(d) else None
                if e2 is not None and s.rescale(init, es) is not None: d, u = e2, es
            if s.rescale(init, u) is None: return ('fresh', es if s.rescale(init, es) else None, ty)
            if not (vfree2(d) & bad): return ('lin', d, u, ty)
            r = dint(s, d, bad) if not z3_bv(d) else None
            if r: return ('delta', r[0], r[1], u, ty)
            A = absform(s, P, padd(b.byteoff(), pmul(-1, init.byteoff())), bad, u)
            if A is not None: return ('lin', A, u, ty)
            return ('fresh', u, ty)
        if ty[0] == 'i' and ty[1] > 1 and (isc(b) or z3.is_int(b) or z3_bv(b)) and (isc(init) or isinstance(init, z3.ExprRef)):
            d = s.ints.sub(b, h, ty[1])
            if not (vfree2(d) & bad): return ('lin', d, None, ty)
            r = dint(s, d, bad) if not z3_bv(d) else None
            if r: return ('delta', r[0], r[1], None, ty)
            A = absform(s, P, s.ints.sub(b, init, ty[1]), bad, 1)
            if A is not None: return ('lin', A, None, ty)
            return ('fresh', None, ty)
        if same(b, h): return ('inv', ty)
        return ('fresh', None, ty)
    tys = {i.name: i.ty for i in fr.fn.blocks[L.header].ins if i.op == 'phi'}
    for k, v in phi0.items():
        c = cl(('phi', k), v, P.hv.get(('phi', k), UNDEF), bphi[k], tys[k])
        if c[0] == 'inv': c = ('fresh', None, tys[k])
        if c[0] == 'fresh' and P.cont is not None: c = condlin(s, fr, L, k, v, P, bphi[k], cls.get(('phi', k)), c, tys[k])
        new[('phi', k)] = c
    for o, m in bst.mem.items():
        if o.id > maxid: continue
        hm = P.hst.mem.get(o)
        if hm is m: 
            for var in cls:
                if var[0] == 'arr' and var[1] is o: new[var] = ('arr',)
                if var[0] == 'cell' and var[1] is o: new[var] = cls[var]
            continue
        if m.kind == 'arr':
            if hm is not None and hm.kind == 'arr' and hm.d.eq(m.d) and ('arr', o) not in cls: continue
            if hm is None and not o.stored: continue
            new[('arr', o)] = ('arr',)
        elif m.kind == 'cells':
            if o.kind == 'glob': continue
            for k, (t, x) in m.d.items():
                h = hm.d.get(k) if hm is not None and hm.kind == 'cells' else None
                var = ('cell', o, k)
                if var in cls or h is None or h[0] != t or not same(h[1], x):
                    init = st0.mem[o].d.get(k, (t, UNDEF))[1] if o in st0.mem and st0.mem[o].kind == 'cells' else UNDEF
                    new[var] = cl(var, init, P.hv.get(var, h[1] if h else UNDEF), x, t)
                    if new[var][0] == 'inv': new[var] = ('fresh', None, t)
        elif m.kind == 'tok':
            if hm is None or hm.kind != 'tok' or hm.d is not m.d: raise Unsupported("stream %s written in a loop" % o)
        elif m.kind == 'raw':
            if hm is not None and hm.kind == 'raw' and hm.d != m.d: raise Unsupported("untyped memory written in loop")
    for var in cls:
        if var not in new and var[0] != 'phi': new[var] = cls[var]
    return new
# a variable that advances by a fixed stride whenever another iteration follows, and is not used once the loop is left
def contlit(P, st0):
    if len(P.out) != 1 or P.rets or z3_bv(P.n): return None
    pc = P.out[0].st.pc[len(st0.pc):]
    if len(pc) != 1: return None
    l = bnot(pc[0])
    return l if isinstance(l, z3.ExprRef) and not ((freevars(l) & P.names) - {P.n.decl().name()}) else None
def oplocs(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'loc' and isinstance(x[1], str): out.add(x[1])
        else:
            for y in x: oplocs(y, out)
    elif isinstance(x, list):
        for y in x: oplocs(y, out)
def onlyinbody(f, L, k):
    if not hasattr(f, 'useblocks'):
        f.useblocks = {}
        for bn, b in f.blocks.items():
            for i in b.ins:
                if i.op == 'phi':
                    for v, src in i.a:
                        o = set(); oplocs(v, o)
                        for x in o: f.useblocks.setdefault(x, set()).add((src, True))
                else:
                    o = set(); oplocs(i.a, o)
                    for x in o: f.useblocks.setdefault(x, set()).add((bn, False))
    return all(b in L.body and b != L.header for b, _ in f.useblocks.get(k, ()))
def nextcont(P):
    nm = P.n.decl().name(); return subst(P.cont, {nm: (P.n, P.n + 1)})
def condgoal(s, P, init, b, A):
    want = s.ints.add(init.idx if isinstance(init, Ptr) else init, s.ints.mul(s.ints.add(P.n, 1, 64), A, 64), 64)
    return s.ints.icmp('eq', b.idx if isinstance(b, Ptr) else b, want, 64)
def condlin(s, fr, L, k, init, P, b, old, dflt, ty):
    h = P.hv.get(('phi', k), UNDEF); key = ('noclin', fr.fn.name, L.header, fr.path, k)
    if s.cache.get(key) or h is UNDEF or init is UNDEF or ty == ('i', 1): return dflt
    if isinstance(b, Ptr):
        if not isinstance(h, Ptr) or b.obj is not h.obj or h.es != b.es or not isinstance(init, Ptr): return dflt
        i0 = s.rescale(init, b.es); es = b.es
        if i0 is None: return dflt
        hi, bi = h.idx, b.idx
    elif ty[0] == 'i' and isinstance(b, (int, z3.ExprRef)) and not isinstance(b, bool): i0, hi, bi, es = init, h, b, None
    else: return dflt
    if not onlyinbody(fr.fn, L, k): return dflt
    if old is not None and old[0] == 'clin':
        g = condgoal(s, P, i0, b, old[1]); nc = nextcont(P)
        if g is True or s.ask([f for f, _ in s.facts] + [ZB(x) for x in s.ctx if x is not None] + [ZB(x) for x in P.bm[0].pc] + [ZB(nc), bnot(g)], 8000) == z3.unsat: return old
        s.cache[key] = True; return dflt
    d = psub(bi, hi); c = []
    def leaves(t):
        if z3.is_app_of(t, z3.Z3_OP_ITE): leaves(t.arg(1)); leaves(t.arg(2))
        elif not (freevars(t) & P.names): c.append(norm(t))
    if not isc(d): leaves(d)
    return ('clin', c[0], es, ty) if c else dflt
def clseq(a, b):
    if set(a) != set(b): return False
    for k in a:
        x, y = a[k], b[k]
        if len(x) != len(y) or not all(same(p, q) for p, q in zip(x, y)): return False
    return True
def merge_cls(s, old, new, passes):
    """after the first passes only weaken"""
    return new

def symloop(s, fr, L, st0, phi0, rets, couple=None, force_quiet=False):
    key = (fr.fn.name, L.header, fr.path); maxid = Obj._n
    cls = dict(s.modcache.get(key, {})); have = key in s.modcache
    # drop class entries about objects that do not exist here
    cls = {k: v for k, v in cls.items() if k[0] == 'phi' or k[1] in st0.mem or k[1].id <= maxid}
    for i in range(14):
        sn = s.snapshot(); nr = len(rets)
        if not have: s.quiet += 1
        try: P = run_pass(s, fr, L, st0, phi0, cls)
        finally:
            if not have: s.quiet -= 1
        new = classify(s, fr, L, st0, phi0, cls, P, maxid)
        if s.mono and couple is None: monocls(s, key, cls, new, P)
        if clseq(new, cls):
            if have or s.quiet: break
            have = True; s.restore(sn); continue
        if i > 8:  # no fixpoint: drop unstable classes
            for k in new:
                if k in cls and k[0] != 'arr' and not clseq({k: new[k]}, {k: cls[k]}): new[k] = ('fresh', None, new[k][-1])
        s.restore(sn); cls = new
    else: raise Unsupported("loop %s of %s: no inductive description" % (L.header, fr.fn.name))
    s.modcache[key] = cls
    return finish(s, fr, L, st0, phi0, cls, P, rets)

# arrays written at ever increasing positions: what lies at or beyond the next position to be written is untouched
def front(log, o):
    """first position stored to in an iteration, in terms of the state at its start"""
    idx = None
    for e in log:
        if e[1] is o and e[0] == 'stall': return None
        if e[0] == 'st' and e[1] is o:
            if idx is None: idx = e[2]      # further positions: monogoals
        if e[0] == 'loop' and writes(e[1], o):
            Rn = e[1]; F = front(Rn.log, o)
            if F is None or idx is not None: return None
            idx = subst(F, {Rn.n.decl().name(): (Rn.n, z3.IntVal(0))}) if not isc(F) else F
    return idx
def regmono(s, A, A0, F, F0):
    if z3.is_const(A) and A0 is not None:
        def inst(i, t):
            o0 = s.sel(A0, i)
            s.fact(z3.Implies(z3.Or(ZI(i) >= ZI(F), ZI(i) < ZI(F0)), t == (ZI(o0) if isc(o0) else o0)), 'untouched so far')
        s.summ[A.decl().name()] = inst
def monogoals(s, P, o, F):
    Fn = subst(F, {P.n.decl().name(): (P.n, P.n + 1)}); gs = [(ZI(F) <= ZI(Fn), P.bm[0].pc if P.bm else ())]
    for e in P.log:
        if e[0] == 'st' and e[1] is o: gs.append((z3.And(ZI(F) <= ZI(e[2]), ZI(e[2]) < ZI(Fn)), e[3]))
        elif e[0] == 'stall' and e[1] is o: return None
        elif e[0] == 'loop' and writes(e[1], o):
            c = getattr(e[1], 'mono', {}).get(o)
            if c is None or not e[1].header_only: return None
            gs.append((z3.And(ZI(F) <= ZI(c[0]), ZI(c[1]) <= ZI(Fn)), e[1].exit.st.pc))
    return gs
def monocls(s, key, cls, new, P):
    for var in list(new):
        if var[0] != 'arr' or P.bm is None or z3_bv(P.n): continue
        bl = ('nomono', key, var[1].id); old = cls.get(var)
        if s.cache.get(bl) or old is None: continue
        F = front(P.log, var[1])
        if F is None or isc(F) or (freevars(F) & P.names) - {P.n.decl().name()}: continue
        gs = monogoals(s, P, var[1], F)
        if gs is None or not all(s.holds(g, pc) for g, pc in gs):
            if s.cache.setdefault(('monotry',) + bl, 0) > 6: s.cache[bl] = True
            s.cache[('monotry',) + bl] += 1; continue
        if len(old) > 1 and same(subst(old[3], {old[2].decl().name(): (old[2], P.n)}), F): new[var] = ('arr', 'mono', old[2], old[3])
        else: new[var] = ('arr', 'mono', P.n, F)

def solve_exit(s, P, st0, lit):
    """iterations until the header condition fails, as a term"""
    if z3_bv(P.n): return None, False
    n = P.n; neg = z3.is_not(lit); c = lit.arg(0) if neg else lit
    if z3.is_app_of(c, z3.Z3_OP_OR) or z3.is_app_of(c, z3.Z3_OP_AND): return None, False
    k = c.decl().kind()
    if k not in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_EQ): return None, False
    a, b = c.arg(0), c.arg(1)
    if not z3.is_int(a): return None, False
    if neg and k in (z3.Z3_OP_LT, z3.Z3_OP_LE): d = psub(b, a); strict = k == z3.Z3_OP_LT   # continue while a<b i.e. d>0 / d>=0
    elif not neg and k in (z3.Z3_OP_LT, z3.Z3_OP_LE): # exit when a<b : continue while a>=b
        d = psub(a, b); strict = k == z3.Z3_OP_LE
    elif not neg and k == z3.Z3_OP_EQ:
        d = psub(b, a); strict = None
    else: return None, False
    if isc(d): return None, False
    p = poly(d); nid = (n.get_id(),); c1 = p.get(nid)
    if c1 is None: return None, False
    rest = {m: v for m, v in p.items() if m != nid}
    if any(freevars(f) & P.names for m, (cc, fs) in rest.items() for f in fs): return None, False
    r = unpoly(rest)
    if strict is None:
        if abs(c1[0]) != 1: return None, False
        N = r if c1[0] == -1 else pmul(-1, r)
        return (N, True) if s.holds(s.ints.icmp('sge', N, 0, 64), st0.pc, 3000) else (None, False)
    if c1[0] != -1: return None, False
    N = r if strict else padd(r, 1)   # r - n > 0  <=> n < r
    if isc(N): return max(N, 0), True
    if s.ints.nn(N) or s.holds(ZI(N) >= 0, st0.pc, 3000): return N, True
    return z3.If(ZI(N) >= 0, ZI(N), z3.IntVal(0)), True

def finish(s, fr, L, st0, phi0, cls, P, rets, exitmap=None, rec=None):
    names = P.names; n = P.n
    for v, c in cls.items():
        if c[0] == 'clin' and P.bm is not None and not s.quiet:
            P.cont = contlit(P, st0); i0 = phi0[v[1]]; i0 = s.rescale(i0, c[2]) if isinstance(i0, Ptr) else i0
            s.oblige('closed form of %s when the loop at %s continues' % (v[1], L.header), z3.Implies(ZB(nextcont(P)), ZB(condgoal(s, P, i0, P.bm[1][v[1]], c[1]))), P.bm[0].pc, getattr(s, 'clprops', ('C17',)))
        if v[0] == 'arr' and len(c) > 1 and not s.quiet:
            gs = monogoals(s, P, v[1], subst(c[3], {c[2].decl().name(): (c[2], P.n)}))
            for g, pc in gs or [(False, ())]: s.oblige('%s is written at increasing positions in the loop at %s' % (v[1].name, L.header), g, pc, getattr(s, 'clprops', ('C17',)))
    R = rec or LoopRec(); R.fn = fr.fn.name; R.header = L.header; R.path = fr.path; R.n = n; R.P = P; R.cls = cls; R.st0 = st0; R.phi0 = phi0
    R.log = P.log; R.children = P.recs; R.N = None; R.exitmap = {}; R.header_only = all(e.src == L.header for e in P.out) and not P.rets
    outs = []
    for e in P.out:
        hdr = e.src == L.header; mp = {}; pc = e.st.pc[len(st0.pc):] if e.st.pc[:len(st0.pc)] == st0.pc or all(same(x, y) for x, y in zip(e.st.pc, st0.pc)) else e.st.pc
        base = st0.pc; drop = None
        lo, hi = P.f0, (P.fh if hdr else P.fe)
        if hdr and len(pc) >= 1:
            N, exact = solve_exit(s, P, st0, pc[-1]) if len(pc) == 1 else (None, False)
            if N is not None: mp[n.decl().name()] = (n, ZI(N)); R.N = N; drop = pc[-1]
        used = set()
        def collect(v):
            if isinstance(v, z3.ExprRef): used.update(freevars(v) & names)
            elif isinstance(v, Ptr): collect(v.idx)
            elif isinstance(v, PtrIte): collect(v.c); collect(v.a); collect(v.b)
            elif isinstance(v, Agg): [collect(x) for x in v.v]
            elif isinstance(v, tuple): [collect(x) for x in v]
            elif isinstance(v, PtrInt): collect(v.p)
        for l in pc: collect(l)
        for v in e.phi.values(): collect(v)
        for o, m in e.st.mem.items():
            if st0.mem.get(o) is m: continue
            if m.kind == 'cells': [collect(x) for t, x in m.d.values()]
            elif m.kind == 'arr': collect(m.d)
            elif m.kind == 'tok': collect(m.d)
        fcts = s.facts[lo:hi]
        # facts about the used symbols (closure over directly mentioned ones)
        ch = True; pick = []; rest = list(fcts)
        while ch:
            ch = False; nr = []
            for f in rest:
                fv = freevars(f[0]) & names
                if fv and (fv & used): pick.append(f); used |= fv; ch = True
                else: nr.append(f)
            rest = nr
        pool = {}
        def findsyms(t):
            st = [t]; seen = set()
            while st:
                x = st.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: pool[x.decl().name()] = x
                elif z3.is_app(x): st.extend(x.children())
                elif z3.is_quantifier(x): st.append(x.body())
        def fs(v):
            if isinstance(v, z3.ExprRef): findsyms(v)
            elif isinstance(v, Ptr): fs(v.idx)
            elif isinstance(v, PtrIte): fs(v.c); fs(v.a); fs(v.b)
            elif isinstance(v, Agg): [fs(x) for x in v.v]
            elif isinstance(v, tuple): [fs(x) for x in v]
            elif isinstance(v, PtrInt): fs(v.p)
        for l in pc: fs(l)
        for v in e.phi.values(): fs(v)
        for o, m in e.st.mem.items():
            if st0.mem.get(o) is m: continue
            if m.kind == 'cells': [fs(x) for t, x in m.d.values()]
            elif m.kind in ('arr', 'tok'): fs(m.d)
        for f in pick: fs(f[0])
        for nm in sorted(used):
            if nm in mp or nm not in pool: continue
            x = pool[nm]
            y = z3.Const(s.fresh_name(nm.split('!')[0] + '_x'), x.sort()); mp[nm] = (x, y)
            if nm in s.ints.__dict__.get('nnv', ()): s.ints.nnv.add(y.decl().name())
        for nm, (x, y) in list(mp.items()):
            if nm in s.dbounds:
                b = s.dbounds[nm]; s.dbounds[y.decl().name()] = (subst(b[0], mp), subst(b[1], mp))
        if exitmap: mp.update(exitmap)
        for f, k in pick:
            g = subst(f, mp)
            if g is not True: s.fact(g, k)
        if hdr and drop is None and not z3_bv(n):
            nx = mp.get(n.decl().name(), (n, n))[1]
            conts = [l for l in (x.st.pc[len(st0.pc):] for x in P.back) ]
            first = [bnot(l) for l in pc] if len(pc) == 1 else []
            if first and not ((freevars(first[0]) & names) - {n.decl().name()}):
                s.fact(z3.Or(ZI(nx) == 0, ZB(subst(first[0], {n.decl().name(): (n, ZI(nx) - 1)}))), 'last iteration')
        newpc = st0.pc + tuple(l for l in (subst(l, mp) for l in pc if l is not drop) if l is not True)
        mem = {o: (m if st0.mem.get(o) is m else subst_mem(m, mp)) for o, m in e.st.mem.items()}
        ne = Edge(e.src, e.dst, State(newpc, mem), {k: subst(v, mp) for k, v in e.phi.items()})
        outs.append(ne)
        for v, c in cls.items():
            if v[0] == 'arr' and len(c) > 1:
                A = P.hv[v]; F = subst(c[3], {c[2].decl().name(): (c[2], P.n)}); F0 = subst(F, {n.decl().name(): (n, z3.IntVal(0))}); Fx = subst(F, mp)
                if A.decl().name() in mp: regmono(s, mp[A.decl().name()][1], st0.mem[v[1]].d if v[1] in st0.mem and st0.mem[v[1]].kind == 'arr' else v[1].init, Fx, F0)
                if hdr: R.mono = getattr(R, 'mono', {}); R.mono[v[1]] = (F0, Fx)
        if hdr: R.exitmap = mp; R.exit = Edge(ne.src, ne.dst, State(ne.st.pc, dict(ne.st.mem)), dict(ne.phi)); R.exitlit = pc[-1] if len(pc) == 1 else None
        if hdr and R.header_only and len(P.out) == 1 and R.N is not None: summarise(s, R, P, st0, ne, mp)
    for st, v in P.rets:
        rets.append((st, v))
    s.recs[-1].append(R); s.logs[-1].append(('loop', R))
    return outs

def summarise(s, R, P, st0, ne, mp):
    """array written at linear positions once per iteration: element-wise description of the result"""
    if P.bm is None or z3_bv(P.n): return
    bst = P.bm[0]
    cont = bst.pc[len(st0.pc):len(st0.pc)+1]
    for var in R.cls:
        if var[0] != 'arr': continue
        o = var[1]; ents = [e for e in P.log if e[0] in ('st', 'stall') and e[1] is o]; nested = any(e[0] == 'loop' and writes(e[1], o) for e in P.log)
        if nested or not ents or any(e[0] == 'stall' for e in ents): continue
        Ah = P.hv.get(var)
        if Ah is None or not z3.is_const(Ah): continue
        pats = []; okk = True
        for e in ents:
            p = poly(e[2]) if not isc(e[2]) else {(): (e[2], ())}; c = {m: v for m, v in p.items() if any(x.eq(P.n) for x in v[1])}
            rest = {m: v for m, v in p.items() if m not in c}
            if any(freevars(f) & P.names for v in rest.values() for f in v[1]): okk = False; break
            if not c: okk = False; break
            # stride: all monomials linear in n
            sd = 0
            for m, (co, fs) in c.items():
                r = [f for f in fs if not f.eq(P.n)]
                if len(fs) - len(r) != 1 or any(freevars(f) & P.names for f in r): okk = False; break
                x = co
                for f in r: x = pmul(x, f)
                sd = padd(sd, x)
            if not okk: break
            b0 = unpoly(rest)
            if not any(same(b0, q[0]) for q in pats): pats.append((b0, sd, e[2]))
        if not okk or not pats or any(not same(q[1], pats[0][1]) for q in pats): continue
        sd = pats[0][1]
        offs = [psub(q[0], pats[0][0]) for q in pats]
        if not isc(sd) or sd <= 0 or not all(isc(x) for x in offs) or max(offs) - min(offs) >= sd: continue
        A0 = st0.mem[o].d if o in st0.mem and st0.mem[o].kind == 'arr' else o.init
        vals = []
        for b0, _, idx in pats:
            v = s.sel(bst.mem[o].d, idx); v = ZI(v) if isc(v) else v
            own = z3.Select(Ah, ZI(idx))
            if isinstance(v, z3.ExprRef) and Ah.decl().name() in freevars(v):
                v = z3.substitute(v, (own, z3.Select(A0, ZI(idx)))); 
            vals.append(v)
        if any(isinstance(v, z3.ExprRef) and (freevars(v) & (P.hsyms - {P.n.decl().name()})) for v in vals): continue
        # unconditional storing is required: positions keep their old value otherwise (already covered by sel on the merged array)
        exitA = ne.st.mem[o].d
        if not z3.is_const(exitA): continue
        facts = [f for f in s.facts[P.f0:P.fe] if freevars(f[0]) & P.names]
        guard = band(*P.bm[0].pc[len(st0.pc):])
        N = R.N; nm = exitA.decl().name(); hs = P.hsyms - {P.n.decl().name()}
        def inst(i, t, pats=pats, vals=vals, A0=A0, N=N, P=P, facts=facts, sd=sd, hs=hs, exitA=exitA, own=Ah):
            inside = []
            for (b0, _, idx), v in zip(pats, vals):
                d = psub(i, b0); k = div_exact(d, sd) if sd != 1 else d
                if k is None:
                    if isc(d): continue
                    return
                m = {P.n.decl().name(): (P.n, ZI(k))}
                fv = freevars(v) & P.names
                # symbols made inside the body are per-iteration: rename
                pool = {}
                st = [v] + [f for f, _ in facts]; seen = set()
                while st:
                    x = st.pop()
                    if x.get_id() in seen: continue
                    seen.add(x.get_id())
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        if x.decl().name() in P.names: pool[x.decl().name()] = x
                    elif z3.is_app(x): st.extend(x.children())
                use = set(fv); sel_ = []; ch = True; restf = list(facts)
                while ch:
                    ch = False; nr = []
                    for f in restf:
                        g = freevars(f[0]) & P.names
                        if g & (use - {P.n.decl().name()}) or (g and g <= {P.n.decl().name()}): sel_.append(f); use |= g; ch = True
                        else: nr.append(f)
                    restf = nr
                if use & hs: sel_ = [f for f in sel_ if not (freevars(f[0]) & hs)]
                for x in sorted(use):
                    if x != P.n.decl().name() and x in pool: m[x] = (pool[x], z3.Const(s.fresh_name(x.split('!')[0] + '_i'), pool[x].sort()))
                inr = z3.And(ZI(k) >= 0, ZI(k) < ZI(N))
                vv = subst(v, m); vv = ZI(vv) if isc(vv) else vv
                for f, kd in sel_:
                    g = subst(f, m)
                    if g is not True: s.fact(z3.Implies(inr, ZB(g)), kd)
                s.resel(vv)
                s.fact(z3.Implies(inr, t == vv), 'array contents')
                inside.append(inr)
            if A0 is not None:
                o0 = s.sel(A0, i); s.fact(z3.Implies(z3.Not(z3.Or(*inside)) if inside else z3.BoolVal(True), t == (ZI(o0) if isc(o0) else o0)), 'array contents')
        s.summ[nm] = inst
def resel(s, t):
    """instantiate descriptions for the selects inside a term"""
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_select(x) and not z3.is_store(x.arg(0)): s.instantiate(x.arg(0), norm(x.arg(1)) if z3.is_int(x.arg(1)) else x.arg(1), x)
        if z3.is_app(x): st.extend(x.children())
def writes(R, o):
    for e in R.log:
        if e[0] in ('st', 'stall') and e[1] is o: return True
        if e[0] == 'loop' and writes(e[1], o): return True
    return False
def elem(s, o): return tsize(o.ety) if o.ety is not None else None
Ex.loop = do_loop; Ex.resel = resel; Ex.elem = elem
_region = Ex.region
from . import inv, retry
