"""Quantization interval estimate: round_up_power_of_2 and estimate_quantization_intervals in exact machine arithmetic, the histogram code of optimize_quant_invl_3d by its bounds."""
import os, re, z3
from .. import ir
from ..sym import *
from ..exe import Ex
from ..inv import Spec
from .kernels import cell, buf, vcell, bv
TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tu', 'intv.cpp')
I64 = ('i', 64); P = ('C19',)
B = lambda v, w=64: z3.BitVecVal(v, w)
def pow2(x): return z3.And(x != 0, x & (x - 1) == 0)
def run(rep, only=None):
    ex = Ex(fp=FPQ, ints=IntBV, timeout=60000)
    m = ir.extract(ir.REPO + '/src/sz_compression_utils.cpp'); f = m.func(ir.find(m, r'^round_up_power_of_2')); rep.fn('round_up_power_of_2')
    b = bv('base'); ex.fact(z3.And(z3.UGE(b, 1), z3.ULE(b, 1 << 31)), 'pre'); s2, r = ex.call_func(f, m, [b], State(), ())
    q = bv('q')   # any power of two that is not below base
    ex.oblige('round_up_power_of_2 returns a power of two', pow2(r), s2.pc, P); ex.oblige('it is not below the argument', z3.UGE(r, b), s2.pc, P)
    ex.oblige('it is the smallest such power of two', z3.Implies(z3.And(pow2(q), z3.UGE(q, b)), z3.ULE(r, q)), s2.pc, P); rep.from_ex(ex, 'round_up_power_of_2')
    ex = Ex(fp=FPQ, ints=IntBV, timeout=60000); ex.check_vec = True; m = ir.extract(TU); f = m.func('k_estimate'); rep.fn('estimate_quantization_intervals')
    ln, n = bv('length', 64), bv('count', 64); ex.fact(z3.And(z3.UGE(ln, B(1)), z3.ULE(ln, B(32768))), 'pre'); st = State()
    v = Obj('intervals', 'cells', 24); st.mem[v] = Mem('cells', {('vec', 0): (I64, ln)})
    seen = []
    def rup(ex, fr, st, ins, A, dem):
        a = ex.ints.L(A[0], 32); ex.oblige('round_up_power_of_2 is called with 1 <= base <= 2^31', z3.And(z3.UGE(a, 1), z3.ULE(a, 1 << 31)), st.pc, P)
        r = ex.ints.fresh('rounded', 32); ex.fact(z3.And(pow2(r), z3.UGE(r, a), z3.Implies(z3.ULE(a, 65536), z3.ULE(r, 65536))), 'contract of round_up_power_of_2'); seen.append(a); return r
    ex.contracts.append((re.compile('^round_up_power_of_2'), rup))
    def inv(ex, st, R, ctx): return [('index in range', z3.ULE(ex.ints.L(R['i'], 64), ln))]
    ex.inv.append((re.compile('.'), lambda ex, fr, L: True, Spec('histogram loop', {'i': I64}, inv, P, measure=lambda ex, st, R: (ln - ex.ints.L(R['i'], 64), 64))))
    s2, r = ex.call_func(f, m, [Ptr(v), n], st, ()); r = ex.ints.L(r, 32)
    ex.oblige('the estimate is a power of two', pow2(r), s2.pc, P); ex.oblige('32 <= estimate <= 131072', z3.And(z3.UGE(r, 32), z3.ULE(r, 131072)), s2.pc, P)
    ex.oblige('the rounding contract was used', len(seen) > 0, (), P)
    rep.from_ex(ex, 'estimate_quantization_intervals'); rep.assume('the minimality clause of round_up_power_of_2 gives: base <= 65536 => result <= 65536 (65536 is a power of two)')
    m = ir.extract(TU, noinline=('estimate_quantization_intervals', 'sample_rough_mean', 'estimate_mean_freq'))
    for S in 'fd': opt(rep, m, S)
def opt(rep, m, S):
    """the histogram handed to the estimate has the size its contract asks for, and the result is the capacity"""
    ex = Ex(fp=UF, ints=IntMath, timeout=20000); ex.check_vec = True; f = m.func('k_opt_' + S); w = 32 if S == 'f' else 64; st = State(); rep.fn('optimize_quant_invl_3d<%s>' % ('float' if S == 'f' else 'double'))
    r1, r2, r3 = z3.Ints('r1 r2 r3')
    for x in (r1, r2, r3): ex.fact(x >= 1, 'pre'); ex.ints.nnv.add(str(x))
    d = buf(ex, 'data', ('f', w)); d.ro = True; cap = cell(ex, st, 'cap', ('i', 32), z3.Int('cap0')); got = []
    def est(ex, fr, st, ins, A, dem):
        n = ex.memof(st, A[0].obj).d.get(('vec', A[0].byteoff())); got.append(1); n = n[1] if n else 0
        ex.oblige('the histogram passed on has between 1 and 32768 bins', band(ex.ints.icmp('sge', n, 1, 64), ex.ints.icmp('sle', n, 32768, 64)), st.pc, P)
        r = z3.Int(ex.fresh_name('estimate')); ex.cache['est'] = r; return r
    ex.contracts.append((re.compile('^estimate_quantization_intervals'), est))
    ex.contracts.append((re.compile('^(sample_rough_mean_3d|float sample_rough_mean_3d|estimate_mean_freq_and_position)'), lambda ex, fr, st, ins, A, dem: ex.fp.fresh('sampled', 32)))
    s2, r = ex.call_func(f, m, [Ptr(d, 0, w // 8), r1, r2, r3, ex.fp.fresh('prec', 64), cap], st, ())
    ex.oblige('the estimate becomes the capacity', got and same(vcell(s2, cap), ex.cache.get('est')), s2.pc, P)
    rep.from_ex(ex, 'optimize_quant_invl_3d<%s>' % S)
