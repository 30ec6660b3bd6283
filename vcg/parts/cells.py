"""Extraction of the cells that hold a critical point: check_cp (over the reals) and compute_cp (against the contract of check_cp)."""
import os, re, z3
from .. import ir, vbool
from ..sym import *
from ..exe import Ex
from ..lock import final_facts
from ..loops import writes, subst
from ..ufo import UFO
from .cp2d import TU, NOINLINE
from .derive import X as RX, inside, stdet, reals
from .kernels import cell, buf, vcell, SN
def run(rep, S='f'):
    w = 32 if S == 'f' else 64; b = w // 8; T = ('f', w); m = ir.extract(TU, noinline=NOINLINE)
    P = ('C04', 'C06'); n = 'check_cp<%s>' % SN[S]; rep.fn(n)
    rep.assume("rounding of check_cp is ignored (real arithmetic) in the part that relates it to the critical point of the cell; the number of cells is below 2^31")
    # 1. check_cp decides whether zero lies in the triangle of the three vectors
    ex = RX(60000); ex.check_bounds = True; u = reals('u0', 'u1', 'u2'); v = reals('v0', 'v1', 'v2'); st = State(); o = Obj('v', 'cells', pmul(1, 6 * b)); st.mem[o] = Mem('cells', {})
    for k in range(3): ex.store(st, Ptr(o, 2*k*b, 1), u[k], T); ex.store(st, Ptr(o, (2*k+1)*b, 1), v[k], T)
    s2, r = ex.call_func(m.func(ir.find(m, r'check_cp<%s>\(' % SN[S])), m, [Ptr(o, 0, 1)], st, ())
    M = stdet(u, v); D = M[0] + M[1] + M[2]; one = ex.ints.icmp('eq', r, 1, 32)
    ex.oblige('1 exactly when the zero vector lies in the triangle', z3.Implies(D != 0, ZB(one) == inside(M)), s2.pc, P)
    ex.oblige('the result is 1 or -1', z3.Or(ZB(one), ZB(ex.ints.icmp('eq', r, -1, 32))), s2.pc, P)
    # the answer does not depend on the order of the corners
    for nm, p in (('first two', (1, 0, 2)), ('last two', (0, 2, 1))):
        N = stdet([u[k] for k in p], [v[k] for k in p]); ex.oblige('exchanging the %s corners keeps the answer' % nm, inside(M) == inside(N), (), P)
    rep.from_ex(ex, n)
    # 2. compute_cp
    n = 'compute_cp<%s>' % SN[S]; rep.fn(n); ex = Ex(fp=UFO, ints=IntMath, timeout=20000); ex.check_bounds = True; made = []; calls = []; vbool.contracts(ex, made)
    CHK = z3.Function('check_cp', *([ex.arrsort(T).range()] * 6 + [IntS]))
    def chk(ex, fr, st, ins, A, dem):
        q = ex.rescale(A[0], b) or A[0]; return CHK(*[ex.load(st, Ptr(q.obj, padd(q.byteoff(), b * k), 1), T) for k in range(6)])
    ex.contracts.append((re.compile('check_cp'), chk))
    r1, r2 = z3.Int('r1'), z3.Int('r2'); [ex.ints.nnv.add(x) for x in ('r1', 'r2')]; ex.fact(z3.And(r1 >= 1, r2 >= 1), 'pre')
    U, V = [Obj(x, 'arr', pmul(b, pmul(r1, r2)), T) for x in 'UV']
    for o in (U, V): o.init = z3.Const(o.name, ex.arrsort(T)); o.ro = True
    st = State(); out = cell(ex, st, 'result', ('p',), Ptr(None, 0, 1)); s2, _ = ex.call_func(m.func(ir.find(m, r'compute_cp<%s>\(' % SN[S])), m, [out, Ptr(U, 0, b), Ptr(V, 0, b), r1, r2], st, ())
    p = vcell(s2, out); ok = isinstance(p, Ptr) and len(made) >= 1 and any(p.obj is o for o, _ in made)
    ex.oblige('the result is the vector filled here', ok, (), P)
    if ok:
        FIN = ex.memof(s2, p.obj).d; recs = [R for R in ex.recs[-1] if writes(R, p.obj)]
        ex.oblige('one sweep fills the result', len(recs) == 1 and len([c for c in recs[0].children if writes(c, p.obj)]) == 1, (), P)
        ex.obls[-1].soft = True
        if ex.obls[-1].ok:
            R0 = recs[0]; R1 = [c for c in R0.children if writes(c, p.obj)][0]; ff = final_facts(ex, R0, p.obj, FIN)
            ex.oblige('every flag is written once', ff is not False, (), P); ex.obls[-1].soft = True
            i, j = z3.Int('ci'), z3.Int('cj'); F = padd(pmul(i, r2), j); C = pmul(2, padd(pmul(i, padd(r2, -1)), j))
            sub = {R0.n.decl().name(): (R0.n, i), R1.n.decl().name(): (R1.n, j)}
            # the iteration that is at (i, j)
            it = z3.And(R0.n == i, R1.n == j); grid = (i >= 0, j >= 0, i < r1 - 1, j < r2 - 1)
            ex.oblige('rows 0..r1-2 are visited', ex.ints.icmp('eq', R0.N, ex.ints_max(r1 - 1) if hasattr(ex, 'ints_max') else padd(r1, -1), 64) if R0.N is not None else False, (), P)
            ex.oblige('columns 0..r2-2 are visited', ex.ints.icmp('eq', R1.N, padd(r2, -1), 64) if R1.N is not None else False, R0.P.bm[0].pc, P)
            for t, vs in ((0, (0, r2, padd(r2, 1))), (1, (0, 1, padd(r2, 1)))):
                val = CHK(*[x for q in vs for x in (ex.sel(U.init, padd(F, q)), ex.sel(V.init, padd(F, q)))])
                ex.oblige('flag %d of cell (i,j) says whether triangle %d of the cell holds a critical point' % (t, t), z3.Implies(it, (ex.sel(FIN, padd(C, t)) != 0) == (val == 1)), tuple(grid) + tuple(R1.P.bm[0].pc), P)
    rep.from_ex(ex, n)
