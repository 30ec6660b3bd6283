"""Contracts of the scalar kernels: quantize / recover (both overloads), the sz3 quantizer, for float and double.
IEEE floating point and machine integers, both exact; only the quotient of a division is abstracted (sign rule of IEEE division)."""
import os, time, z3
from .. import ir
from ..sym import *
from ..exe import Ex
TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tu', 'kernels.cpp')
class Two:
    """runs a task first with abstracted arithmetic; what that does not prove is decided again with exact IEEE arithmetic"""
    def __init__(s, rep): s.rep = rep
    def go(s, prefix, task):
        ex = Ex(fp=FPA, ints=IntBV, timeout=60000); ex.z3first = 2500; task(ex); bad = {o.name for o in ex.obls if not o.ok}
        if bad:
            ex2 = Ex(fp=FPQ, ints=IntBV, timeout=60000); ex2.z3first = 10000; ex2.only = bad; task(ex2)
            ex.obls = [o for o in ex.obls if o.ok] + ex2.obls
        s.rep.from_ex(ex, prefix)
def cell(ex, st, nm, ty, v):
    o = Obj(nm, 'cells', tsize_(ty)); st.mem[o] = Mem('cells', {0: (ty, v)}); return Ptr(o)
def tsize_(t): return ir.tsize(t)
def buf(ex, nm, ety):
    o = Obj(nm, 'arr', None, ety); o.init = z3.Const(nm, ex.arrsort(ety)); return o
def vcell(st, p): return st.mem[p.obj].d[0][1]
def feq(a, b): return a == b   # identical values (NaN included)
def bv(nm, w=32): return z3.BitVec(nm, w)
def within(ex, a, b, prec, w, strict=False):
    d = ex.fp.abs(ex.fp.bin('fsub', a, b, w), w); d = d if w == 64 else ex.fp.ext(d, 32, 64)
    return z3.fpLEQ(d, prec)
SN = {'f': 'float', 'd': 'double'}
def run(rep, only=None, task=None):
    m = ir.extract(TU); two = Two(rep)
    rep.assume("IEEE division: a non-negative numerator over a non-negative denominator is non-negative or NaN (sign rule); x/2 is exact scaling")
    for S, w in (('f', 32), ('d', 64)):
        if only and S != only: continue
        for over in ('quant_ow', 'quant'):
            if task and over != task: continue
            nm = 'quantize<%s>%s' % (SN[S], '' if over == 'quant_ow' else ' (no reconstruction)'); rep.fn(nm, 'recover<%s>' % SN[S])
            two.go(nm, lambda ex: quant(ex, m, S, w, over))
        if not task or task == 'mean': rep.fn('recover<%s>(meanInfo)' % SN[S]); two.go('recover<%s> with mean' % SN[S], lambda ex: mean(ex, m, S, w))
        for dest in (False, True):
            if task and task != ('sz3d' if dest else 'sz3'): continue
            nm = 'VariableEBLinearQuantizer<%s>::quantize_and_overwrite%s' % (SN[S], ' (dest)' if dest else ''); rep.fn(nm, 'VariableEBLinearQuantizer<%s>::recover' % SN[S])
            two.go(nm, lambda ex: sz3(ex, m, S, w, dest))
def quant(ex, m, S, w, over):
    T = ('f', w); st = State(); f = m.func('k_%s_%s' % (over, S)); pred = z3.FP('pred', z3.Float32()); cur = z3.FP('cur', ex.fp.S[w]); prec = z3.FP('prec', z3.Float64())
    cap, rad = bv('cap'), bv('rad'); i0 = bv('i0', 64)
    for c in (cap >= 1, rad >= 1, rad <= (1 << 24), cap <= 2 * rad, z3.fpGEQ(prec, z3.FPVal(0.0, z3.Float64()))): ex.fact(c, 'pre')
    ub = buf(ex, 'unpred', T); u = cell(ex, st, 'u', ('p',), Ptr(ub, i0, w // 8)); d = cell(ex, st, 'd', T, z3.FP('d0', ex.fp.S[w]))
    args = [pred, cur, prec, cap, rad, u] + ([d] if over == 'quant_ow' else [])
    s2, r = ex.call_func(f, m, args, st, ())
    U = vcell(s2, u); stored = ex.sel(ex.memof(s2, ub).d, i0); r = ex.ints.L(r, 32)
    half = (cap - 1) / 2; zero = r == 0; P = ('C08', 'C01', 'C03')
    ex.oblige('code 0 => the value is stored verbatim', bor(bnot(zero), feq(stored, cur)), s2.pc, P)
    ex.oblige('code 0 => exactly one verbatim value is appended, otherwise none', z3.If(zero, ex.ints.L(U.idx, 64) == i0 + 1, ex.ints.L(U.idx, 64) == i0), s2.pc, P + ('C13',))
    ex.oblige('other codes lie in the alphabet and are never 0', z3.And(z3.Or(zero, z3.And(r >= rad - half, r <= rad + half)), half <= rad - 1), s2.pc, P + ('C14',))
    # decoder kernel on the same inputs
    st3 = State(); u3 = cell(ex, st3, 'u3', ('p',), Ptr(ub, i0, w // 8)); st3.mem[ub] = s2.mem[ub] if ub in s2.mem else ex.memof(s2, ub); st3.pc = s2.pc
    s4, rv = ex.call_func(m.func('k_recover_%s' % S), m, [pred, prec, r, rad, u3], st3, ()); U4 = vcell(s4, u3)
    if over == 'quant_ow':
        D = vcell(s2, d)
        ex.oblige('code 0 => the reconstruction equals the value bit for bit', bor(bnot(zero), feq(D, cur)), s2.pc, P)
        ex.oblige('other codes => |reconstruction - value| <= precision', bor(zero, within(ex, D, cur, prec, w)), s2.pc, P)
        ex.oblige('recover returns the reconstruction of the encoder', feq(rv, D), s2.pc, P + ('C15',))
    else:
        ex.oblige('code 0 => recover returns the value', bor(bnot(zero), feq(rv, cur)), s2.pc, P)
        ex.oblige('other codes => |recover - value| <= precision', bor(zero, within(ex, rv, cur, prec, w)), s2.pc, P)
    ex.oblige('recover consumes a verbatim value exactly for code 0', ex.ints.L(U4.idx, 64) == ex.ints.L(U.idx, 64), s2.pc, P + ('C13',))
def mean(ex, m, S, w):
    T = ('f', w); st = State(); pred = z3.FP('pred', z3.Float32()); prec = z3.FP('prec', z3.Float64()); rad, ty = bv('rad'), bv('type'); i0 = bv('i0', 64)
    use = z3.Bool('use_mean'); mn = z3.FP('mean', ex.fp.S[w]); ub = buf(ex, 'unpred', T)
    f = m.func('k_recover_mean_%s' % S); mo = Obj('meanInfo', 'cells', 8 if w == 32 else 16)
    st.mem[mo] = Mem('cells', {0: (('i', 8), z3.If(use, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))), w // 8: (T, mn)})
    u = cell(ex, st, 'u', ('p',), Ptr(ub, i0, w // 8)); s2, r = ex.call_func(f, m, [Ptr(mo), pred, prec, ty, rad, u], st, ())
    st3 = State(); u3 = cell(ex, st3, 'u3', ('p',), Ptr(ub, i0, w // 8)); s4, r0 = ex.call_func(m.func('k_recover_%s' % S), m, [pred, prec, ty, rad, u3], st3, ())
    ex.oblige('code 1 with a mean => the mean, bit for bit', bor(bnot(band(ty == 1, use)), feq(r, mn)), s2.pc, ('C08', 'C01', 'C13'))
    ex.oblige('any other code => as without a mean', bor(band(ty == 1, use), feq(r, r0)), s2.pc, ('C08', 'C01', 'C13'))
    ex.oblige('a verbatim value is consumed exactly for code 0', ex.ints.L(vcell(s2, u).idx, 64) == z3.If(ty == 0, i0 + 1, i0), s2.pc, ('C08', 'C13'))
def sz3(ex, m, S, w, dest):
    T = ('f', w); st = State(); f = m.func('k_sz3%s_%s' % ('d' if dest else '', S))
    q = Obj('quantizer', 'cells', 56); rad = bv('radius'); n0 = bv('n0', 64); ex.fact(z3.And(rad >= 1, rad <= (1 << 24)), 'pre')
    data, pred, eb = z3.FP('data', ex.fp.S[w]), z3.FP('pred', ex.fp.S[w]), z3.FP('eb', ex.fp.S[w]); ex.fact(z3.fpGEQ(eb, z3.FPVal(0.0, ex.fp.S[w])), 'pre')
    st.mem[q] = Mem('cells', {('vec', 8): (('i', 64), n0), 32: (('i', 64), bv('index0', 64)), 40: (('i', 32), rad)})
    d = cell(ex, st, 'data', T, data); dd = cell(ex, st, 'dest', T, z3.FP('dest0', ex.fp.S[w]))
    s2, r = ex.call_func(f, m, [Ptr(q), data, pred, eb, dd] if dest else [Ptr(q), d, pred, eb], st, ()); r = ex.ints.L(r, 32)
    D = vcell(s2, dd if dest else d); zero = r == 0; P = ('C08', 'C03'); nv = s2.mem[q].d[('vec', 8)][1]; vb = ex.cache.get(('vec', q.id, 8))
    ex.oblige('code 0 => kept bit for bit and stored verbatim', bor(bnot(zero), band(feq(D, data), feq(ex.sel(s2.mem[vb].d, n0), data) if vb is not None and vb in s2.mem else False)), s2.pc, P)
    ex.oblige('one verbatim value for code 0, none otherwise', ex.ints.L(nv, 64) == z3.If(zero, n0 + 1, n0), s2.pc, P + ('C13',))
    ex.oblige('other codes lie in [1, 2*radius-1]', z3.Or(zero, z3.And(r >= 1, r <= 2 * rad - 1)), s2.pc, P + ('C14',))
    err = ex.fp.abs(ex.fp.bin('fsub', D, data, w), w)
    ex.oblige('other codes => reconstruction does not miss the bound', bor(zero, z3.Not(z3.fpGT(err, eb))), s2.pc, P)
    st3 = State(pc=s2.pc); q3 = Obj('quantizer3', 'cells', 56); ix = bv('index', 64)
    st3.mem[q3] = Mem('cells', {('vec', 8): (('i', 64), nv), 32: (('i', 64), ix), 40: (('i', 32), rad)})
    if vb is not None: ex.cache[('vec', q3.id, 8)] = vb; st3.mem[vb] = s2.mem.get(vb) or ex.memof(s2, vb)
    s4, rv = ex.call_func(m.func('k_sz3rec_%s' % S), m, [Ptr(q3), pred, r, eb], st3, ()); i4 = s4.mem[q3].d[32][1]
    ex.oblige('recover returns the reconstruction of the encoder', z3.Implies(ix == n0, feq(rv, D)), s2.pc, P)
    ex.oblige('recover consumes a verbatim value exactly for code 0', ex.ints.L(i4, 64) == z3.If(zero, ix + 1, ix), s2.pc, P + ('C13',))
