"""Tolerance derivations as machine numbers: the derived tolerance of a triangle is a number >= 0 (never NaN) on fields within the stated magnitudes,
and derive_eb_abs_online_2d is at most its bound and at most the tolerance derived from every incident triangle that lies in the mesh."""
import os, re, z3
from .. import ir
from ..sym import *
from ..exe import Ex
from ..ufo import UFO, UFM, same_value
from .cp2d import TU as TUC, NOINLINE, I32, OFFS
from .derive import TU, SN
from .kernels import cell, buf, vcell
def run(rep, task=None, kind=None, S=None):
    for t, k in (('num', 'abs'), ('num', 'rel'), ('fold', 'abs')):
        for x in 'fd':
            if task in (None, t) and kind in (None, k) and S in (None, x):
                ex = None
                def keep(e): nonlocal ex; ex = e
                pre = 'derive_eb_abs_online_2d<%s>' % SN[x] if t == 'fold' else ('derive_cp_eb_for_positions_online_abs<%s>' if k == 'abs' else 'derive_cp_eb_for_positions_online<%s>') % SN[x]
                rep.fn(pre)
                try: (fold(rep, x, keep) if t == 'fold' else num(rep, k, x, keep))
                except Unsupported as e: rep.undecided('%s: %s' % (pre, e))
                if ex is not None: rep.from_ex(ex, pre)
PN = ('C03', 'C04', 'C06', 'C07')
def num(rep, kind, S, keep):
    w = 32 if S == 'f' else 64; T = ('f', w); p = (60 if kind == 'abs' else 55) if S == 'f' else (240 if kind == 'abs' else 220); m = ir.extract(TU); ex = Ex(fp=UFM, ints=IntMath, timeout=30000); keep(ex); fp = ex.fp
    rep.assume('tolerance derivations as numbers: components of magnitude at most 2^%d (%s)' % (p, SN[S]))
    u = [fp.bound(fp.fresh('u%d' % i, w), p) for i in range(3)]; v = [fp.bound(fp.fresh('v%d' % i, w), p) for i in range(3)]
    for a, b in ((v[0], v[1]), (u[0], u[1])): same_value(fp, ex, a, b)
    if kind == 'abs': s2, r = ex.call_func(m.func('k_dabs_' + S), m, u + v, State(), ())
    else:
        cb = Obj('c', 'arr', None, T); cb.init = z3.Const('c', ex.arrsort(T)); ex.summ['c'] = lambda i, t: fp.lim(t, 1, w)
        s2, r = ex.call_func(m.func('k_drel_' + S), m, u + v + [Ptr(cb, 0, w // 8)], State(), ())
    ex.oblige('the derived tolerance is a number', fp.num(r), s2.pc, PN); ex.oblige('the derived tolerance is not negative', fp.o(r) >= 0, s2.pc, PN, extra=[fp.num(r)])
def fold(rep, S, keep):
    w = 32 if S == 'f' else 64; b = w // 8; T = ('f', w); m = ir.extract(TUC, noinline=NOINLINE + ('derive_eb_abs_online_2d',)); f = m.func(ir.find(m, r'derive_eb_abs_online_2d<%s>\(' % SN[S]))
    ex = Ex(fp=UFO, ints=IntMath, timeout=20000); keep(ex); fp = ex.fp; ex.check_bounds = True
    r1, r2, i, j = z3.Ints('r1 r2 i j'); [ex.ints.nnv.add(x) for x in ('r1', 'r2', 'i', 'j')]; ex.fact(z3.And(r1 >= 1, r2 >= 1, i >= 0, j >= 0, i < r1, j < r2, r1 < 1 << 29, r2 < 1 << 29, r1*r2 < 1 << 30), 'pre')
    for c in (-1, 0, 1): ex.fact(z3.And(z3.Implies(i + c >= 0, (i + c)*r2 >= 0), z3.Implies(r1 - 1 - i - c >= 0, (r1 - 1 - i - c)*r2 >= 0)), 'lemma')
    at = padd(pmul(i, r2), j); n = pmul(r1, r2); O = {}
    for X in 'UV': O[X] = Obj(X, 'arr', pmul(b, n), T); O[X].init = z3.Const(X, ex.arrsort(T)); O[X].ro = True; ex.summ[X] = lambda k, t: ex.fact(fp.fin(t), 'finite field')
    st = State(); eb = fp.fresh('eb', 64); ex.fact(z3.And(fp.fin(eb), fp.o(eb) >= 0), 'pre')
    io, of = Obj('index_offset', 'cells', 96), Obj('offsets', 'cells', 28); io.ro = of.ro = True; d, e = {}, {}
    for k in range(6):
        for q in (0, 1):
            dr, dc = OFFS[(k + q) % 6]; d[16*k + 8*q] = (I32, dc); d[16*k + 8*q + 4] = (I32, dr)
    for k in range(7): dr, dc = OFFS[k % 6]; e[4*k] = (I32, padd(pmul(dr, r2), dc))
    st.mem[io] = Mem('cells', d); st.mem[of] = Mem('cells', e); der = []
    def derive(ex, fr, s, ins, A, dem):
        v = fp.fresh('derived', 64); ex.fact(z3.And(fp.num(v), fp.o(v) >= 0), 'contract of derive_cp_eb_for_positions_online_abs'); der.append((A, v, s.pc)); return v
    ex.contracts.append((re.compile('derive_cp_eb_for_positions_online_abs'), derive))
    s2, r = ex.call_func(f, m, [Ptr(O['U'], at, b), Ptr(O['V'], at, b), i, j, r1, r2, eb, Ptr(io, 0, 1), Ptr(of, 0, 1)], st, ())
    P = ('C04', 'C06', 'C18')
    ex.oblige('the tolerance of a vertex is a number between 0 and the bound', z3.And(fp.num(r), fp.o(r) >= 0, fp.o(r) <= fp.o(eb)), s2.pc, P + ('C03', 'C07'))
    for k in range(6):
        c = [OFFS[(k + q) % 6] for q in (0, 1)]; mesh = z3.And(*[z3.And(i + dr >= 0, i + dr < r1, j + dc >= 0, j + dc < r2) for dr, dc in c]); alts = []
        val = {X: [ex.sel(O[X].init, padd(at, padd(pmul(dr, r2), dc))) for dr, dc in c] + [ex.sel(O[X].init, at)] for X in 'UV'}
        for A, v, pc in der:
            for o in ((0, 1), (1, 0)):
                want = [val['U'][o[0]], val['U'][o[1]], val['U'][2], val['V'][o[0]], val['V'][o[1]], val['V'][2]]
                alts.append(z3.And(*[x == y for x, y in zip(A, want)], *[ZB(l) for l in pc], fp.o(r) <= fp.o(v)))
        ex.oblige('the tolerance of a vertex is at most the one derived from incident triangle %d when it lies in the mesh' % k, z3.Or(*alts) if alts else False, s2.pc + (mesh,), P)
