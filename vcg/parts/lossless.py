"""The lossless wrapper over the contract of ZSTD: every argument handed over unchanged, enough room on both sides, the library's result returned."""
import re, z3
from .. import ir
from ..sym import *
from ..exe import Ex
from .kernels import cell, buf, vcell
P = ('C21',)
def run(rep):
    m = ir.extract(ir.REPO + '/src/sz_lossless.cpp'); rep.fn('sz_lossless_compress', 'sz_lossless_decompress')
    rep.assume("ZSTD_compress(dst, cap, src, n, level) succeeds when cap >= n + 3*ceil(n/2^17) + 14 (frame header, one header per raw block) and then ZSTD_decompress(dst', cap', dst, result) restores src when cap' >= n",
               "lengths below 2^52 (exact in the size estimate)")
    f = m.func(ir.find(m, r'^sz_lossless_compress\(')); ex = Ex(fp=RealD, ints=IntMath); st = State(); n, lvl = z3.Ints('n level'); ex.ints.nnv.add('n'); ex.fact(z3.And(n >= 0, n < 2**52), 'pre')
    data = buf(ex, 'data', ('i', 8)); data.ro = True; calls = []; res = z3.Int('result'); ex.ints.nnv.add('result')
    def comp(ex, fr, st, ins, A, dem): calls.append((A, tuple(st.pc))); return res
    ex.contracts.append((re.compile(r'^ZSTD_compress(\(|$)'), comp)); ex.contracts.append((re.compile(r'^ZSTD_compressBound(\(|$)'), lambda ex, fr, st, ins, A, dem: bound(ex, A[0])))
    out = cell(ex, st, 'out', ('p',), NULL); s2, r = ex.call_func(f, m, [1, lvl, Ptr(data, 0, 1), n, out], st, ())
    ok = len(calls) == 1; need = lambda nm, g, pc, pr=P: ex.oblige(nm, g, pc, pr)
    need('the library is called once', ok, s2.pc)
    if ok:
        (dst, cap, src, ln, l2), pc = calls[0]; al = alloc_of(dst)
        need('the whole input is handed over', isinstance(src, Ptr) and src.obj is data and same(src.byteoff(), 0), pc); need('with its length', ex.ints.icmp('eq', ln, n, 64), pc); need('at the level asked for', ex.ints.icmp('eq', l2, lvl, 64), pc)
        need('the output is a fresh array', al is not None and same(dst.byteoff(), 0), pc)
        if al is not None:
            need('the capacity stated is at most the allocation', ZI(cap) <= ZI(al.size), pc, P + ('C14',)); need('the capacity suffices for incompressible input', ZI(cap) >= n + 3*((n + 131071)/131072) + 14, pc)
            o = vcell(s2, out); need('that array is returned', isinstance(o, Ptr) and o.obj is al and same(o.byteoff(), 0), s2.pc)
        need('the length reported is the library\'s', ex.ints.icmp('eq', r, res, 64), s2.pc)
    rep.from_ex(ex, 'sz_lossless_compress')
    f = m.func(ir.find(m, r'^sz_lossless_decompress\(')); ex = Ex(fp=RealD, ints=IntMath); st = State(); c, n = z3.Ints('csize n'); ex.ints.nnv |= {'n', 'csize'}; ex.fact(z3.And(n >= 0, c >= 0), 'pre')
    data = buf(ex, 'packed', ('i', 8)); data.ro = True; dcalls = []; dres = z3.Int('dresult'); ex.ints.nnv.add('dresult'); ex.fact(dres == n, 'ZSTD restores n bytes')
    def dec(ex, fr, st, ins, A, dem): dcalls.append((A, tuple(st.pc))); return dres
    ex.contracts.append((re.compile(r'^ZSTD_decompress(\(|$)'), dec)); out = cell(ex, st, 'out', ('p',), NULL); s2, r = ex.call_func(f, m, [1, Ptr(data, 0, 1), c, out, n], st, ())
    need = lambda nm, g, pc, pr=P: ex.oblige(nm, g, pc, pr); ok = len(dcalls) == 1; need('the library is called once', ok, s2.pc)
    if ok:
        (dst, cap, src, ln), pc = dcalls[0]; al = alloc_of(dst)
        need('the whole packed input is handed over', isinstance(src, Ptr) and src.obj is data and same(src.byteoff(), 0), pc); need('with its length', ex.ints.icmp('eq', ln, c, 64), pc); need('the output is a fresh array', al is not None and same(dst.byteoff(), 0), pc)
        if al is not None:
            need('the capacity stated is at most the allocation', ZI(cap) <= ZI(al.size), pc, P + ('C14',)); need('the capacity holds the original length', ZI(cap) >= n, pc)
            o = vcell(s2, out); need('that array is returned', isinstance(o, Ptr) and o.obj is al and same(o.byteoff(), 0), s2.pc)
        need('the original length is reported', ex.ints.icmp('eq', r, n, 64), s2.pc)
    rep.from_ex(ex, 'sz_lossless_decompress')
def alloc_of(p): return p.obj if isinstance(p, Ptr) and p.obj is not None and p.obj.kind in ('raw', 'arr') and p.obj.size is not None else None
def bound(ex, n):
    b = z3.Int(ex.fresh_name('zbound')); ex.ints.nnv.add(b.decl().name()); n = ZI(n)
    ex.fact(b == n + n/256 + z3.If(n < 131072, (131072 - n)/2048, 0), 'ZSTD_compressBound'); return b
