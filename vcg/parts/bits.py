"""Packed sign/indicator bits: encoder and decoder loops under invariants over one arbitrary bit (bit-vectors, exact machine arithmetic).
Contract of the pair, for every length and every index K: decoder(encoder(a))[K] == (a[K] == 1), both moving the stream position by ceil(length/8)."""
import re, z3
from .. import ir
from ..sym import *
from ..exe import Ex
from ..inv import Spec
from .kernels import cell, buf, vcell, bv
I64, I8 = ('i', 64), ('i', 8)
B = lambda v, w=64: z3.BitVecVal(v, w)
def bit(x, k): return z3.Extract(0, 0, z3.LShR(x, k))
def run(rep, only=None):
    P = ('C11', 'C02')
    if only in (None, 'enc'): enc(rep, P)
    if only in (None, 'dec'): dec(rep, P)
    if only in (None, 'enc'):
        # composition of the two postconditions, stated over one byte
        s = z3.Solver(); K, byte = bv('K', 64), bv('byte', 8); a = z3.Bool('isone'); r = z3.Extract(7, 0, z3.URem(K, B(8)))
        s.add(bit(byte, B(7, 8) - r) == z3.If(a, B(1, 1), B(0, 1))); d = z3.ZeroExt(7, bit(byte, B(7, 8) - r)); s.add(d != z3.If(a, B(1, 8), B(0, 8)))
        rep.obl("bits: decode(encode(a))[K] == (a[K] == 1)", P, 'proved' if s.check() == z3.unsat else 'failed', 'z3')
def guarded(o, lo, hi):
    """every read lies in [lo, hi)"""
    def h(ex, st, p, ty):
        i = ex.ints.L(p.idx, 64); ex.oblige('reads of %s stay in range' % o.name, z3.And(z3.UGE(i, lo), z3.ULT(i, hi)), st.pc, ('C14',))
        o.on_load = None; v = ex.load(st, p, ty); o.on_load = h; return v
    o.on_load = h
def enc(rep, P):
    m = ir.extract(ir.REPO + '/src/sz_compression_utils.cpp'); f = m.func(ir.find(m, r'^convertIntArray2ByteArray_fast_1b_to_result_sz')); rep.fn('convertIntArray2ByteArray_fast_1b_to_result_sz')
    ex = Ex(fp=UF, ints=IntBV, timeout=120000); ex.unroll_all = 9; st = State()
    n, p0 = bv('len', 64), bv('p0', 64); q, r = bv('q', 64), bv('r', 64)      # the bit: number r of byte q
    for c in (z3.ULT(n, B(1 << 60)), z3.ULT(p0, B(1 << 61)), z3.ULT(q, B(1 << 57)), z3.ULT(r, B(8))): ex.fact(c, 'pre')
    src = buf(ex, 'in', I8); src.ro = True; guarded(src, B(0), n); dst = buf(ex, 'out', I8); pos = cell(ex, st, 'pos', ('p',), Ptr(dst, p0, 1))
    nb = z3.UDiv(n + B(7), B(8)); K = B(8) * q + r; A0 = dst.init
    want = z3.If(z3.And(z3.ULT(K, n), src.init[K] == B(1, 8)), B(1, 1), B(0, 1))
    def ok(A): return bit(A[p0 + q], z3.Extract(7, 0, B(7) - r)) == want
    z = bv('z', 64); ex.fact(z3.Or(z3.ULT(z, p0), z3.UGE(z, p0 + nb)), 'pre')   # a byte outside of the output
    def inv(ex, st, R, ctx):
        i, k, A = L(R['i']), L(R['n']), ex.memof(st, dst).d; pp = vcell(st, pos)
        return [('position', z3.And(L(pp.idx) == p0 + i, z3.ULE(i, nb))), ('bytes done', z3.And(z3.ULE(k, n), k == z3.If(z3.ULT(B(8) * i, n), B(8) * i, n))),
                ('bits written', z3.Implies(z3.ULT(q, i), ok(A))), ('nothing else written', A[z] == A0[z])]
    def L(x): return ex.ints.L(x, 64)
    ex.inv.append((re.compile('convertIntArray2ByteArray'), lambda ex, fr, Lp: Lp.parent is None, Spec('byte loop', {'i': I64, 'n': I64}, inv, P, measure=lambda ex, st, R: (nb - L(R['i']), 64), pick=lambda ex, k, v, r: isc(v) and v == 0)))
    s2, _ = ex.call_func(f, m, [Ptr(src, 0, 1), n, pos], st, ()); A = s2.mem[dst].d; pp = vcell(s2, pos)
    ex.oblige('the position advances by ceil(length/8)', L(pp.idx) == p0 + nb, s2.pc, P + ('C13',))
    ex.oblige('bit 7-r of byte q is set exactly when element 8q+r is 1, padding bits are 0', z3.Implies(z3.ULT(q, nb), ok(A)), s2.pc, P)
    ex.oblige('no byte outside of the output is written', A[z] == A0[z], s2.pc, P + ('C14',))
    rep.from_ex(ex, 'bit packing')
def dec(rep, P):
    m = ir.extract(ir.REPO + '/src/sz_decompression_utils.cpp'); f = m.func(ir.find(m, r'^convertByteArray2IntArray_fast_1b_sz')); rep.fn('convertByteArray2IntArray_fast_1b_sz')
    ex = Ex(fp=UF, ints=IntBV, timeout=120000); ex.unroll_all = 9; st = State()
    n, p0, K = bv('len', 64), bv('p0', 64), bv('K', 64)
    for c in (z3.ULT(n, B(1 << 60)), z3.UGT(n, B(0)), z3.ULT(p0, B(1 << 61)), z3.ULT(K, n)): ex.fact(c, 'pre')
    nb = z3.UDiv(n + B(7), B(8)); src = buf(ex, 'in', I8); src.ro = True; guarded(src, p0, p0 + nb); pos = cell(ex, st, 'pos', ('p',), Ptr(src, p0, 1)); z = bv('z', 64); ex.fact(z3.UGE(z, n), 'pre'); S = src.init
    def L(x): return ex.ints.L(x, 64)
    def ok(A): return A[K] == z3.ZeroExt(7, bit(S[p0 + z3.UDiv(K, B(8))], z3.Extract(7, 0, B(7) - z3.URem(K, B(8)))))
    def out(st):
        for o in ex.allocs:
            if o.kind in ('raw', 'arr') and ex.memof(st, o).kind == 'raw': ex.to_arr(st, o, I8)
        return ex.allocs[0]
    def inv(ex, st, R, ctx):
        o = out(st); i, k = L(R['i']), L(R['n']); A = ex.memof(st, o).d; pp = vcell(st, pos)
        return [('position', z3.And(L(pp.idx) == p0 + i, z3.ULE(i, nb - B(1)))), ('elements done', k == B(8) * i), ('bits read', z3.Implies(z3.ULT(K, k), ok(A))), ('nothing else written', A[z] == o.init[z])]
    ex.inv.append((re.compile('convertByteArray2IntArray'), lambda ex, fr, Lp: len(loops_of(fr)) < 2 or Lp is loops_of(fr)[0], Spec('byte loop', {'i': I64, 'n': I64}, inv, P, measure=lambda ex, st, R: (nb - L(R['i']), 64), pick=lambda ex, k, v, r: isc(v) and v == 0)))
    ex.check_bounds = False
    s2, ret = ex.call_func(f, m, [n, pos, nb], st, ()); pp = vcell(s2, pos); o = ex.allocs[0]
    ex.oblige('the position advances by the byte length', L(pp.idx) == p0 + nb, s2.pc, P + ('C13',))
    g = lambda p: z3.And(p.c, g(p.a)) if isinstance(p, PtrIte) else (p.obj is o and same(p.byteoff(), 0))
    ex.oblige('the allocated array is returned', isinstance(ret, Ptr) and ret.obj is o and same(ret.byteoff(), 0) or (isinstance(ret, PtrIte)), s2.pc, P)
    ex.oblige('element K is bit 7-K%8 of byte K/8', ok(s2.mem[o].d), s2.pc, P)
    ex.oblige('no element outside of the array is written', s2.mem[o].d[z] == o.init[z], s2.pc, ('C14',))
    ex.oblige('the array has one byte per element', L(o.size) == n, s2.pc, ('C14',))
    rep.from_ex(ex, 'bit unpacking')
def loops_of(fr):
    f = fr.fn; return sorted([L for L in f.loops.values() if L.parent is None], key=lambda L: f.num[L.header])
