"""Recorded tolerances: eb_exponential_quantize. Bit-exact form of the recorded tolerance (uninterpreted floats), and over the reals that it
never exceeds the derived one (log2/pow by their defining properties)."""
import os, z3
from .. import ir
from ..sym import *
from ..exe import Ex
from .kernels import cell, vcell
TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tu', 'derive.cpp')
P = ('C07',)
def run(rep):
    m = ir.extract(TU); f = m.func('k_ebq'); rep.fn('eb_exponential_quantize')
    # (a) machine floats, uninterpreted: the value the decoder computes from the index
    ex = Ex(fp=UF, ints=IntMath); st = State(); e0 = z3.Const('eb', ex.fp.S[64]); thr = z3.Const('thr', ex.fp.S[64]); lob = z3.Const('lob', ex.fp.S[64]); base = z3.Int('base')
    ex.fact(base >= 2, 'pre'); p = cell(ex, st, 'ebcell', ('f', 64), e0); s2, r = ex.call_func(f, m, [p, base, lob, thr], st, ()); e1 = vcell(s2, p); r = ZI(r)
    zero = ex.fp.const(0, 64); dec = ex.fp.bin('fmul', ex.fp.bin2('pow', ex.fp.fromint(base, 64), ex.fp.fromint(r, 64), 64), thr, 64)
    ex.oblige('an index other than 0 decodes to exactly the tolerance kept', z3.Implies(r != 0, e1 == dec), s2.pc, P + ('C03', 'C01'))
    ex.oblige('index 0 leaves tolerance 0', z3.Implies(r == 0, e1 == zero), s2.pc, P)
    ex.oblige('a tolerance that is not above the threshold (or is not a number) becomes index 0', z3.Implies(bnot(ex.fp.cmp('ogt', e0, thr, 64)), z3.And(r == 0, e1 == zero)), s2.pc, P)
    rep.from_ex(ex, 'eb_exponential_quantize (bit-exact)')
    # (b) the reals
    ex = Ex(fp=RealD, ints=IntMath); st = State(); e0, thr, lob = z3.Reals('eb thr lob'); base = z3.Int('base'); RR = z3.RealSort()
    L = z3.Function('log2', RR, RR); W = z3.Function('pow', RR, RR, RR); b = z3.ToReal(base)
    for c in (base >= 2, thr > 0, lob == L(b), lob > 0): ex.fact(c, 'pre')
    p = cell(ex, st, 'ebcell', ('f', 64), e0); s2, r = ex.call_func(f, m, [p, base, lob, thr], st, ()); e1 = vcell(s2, p); r = ZI(r)
    # ghost: q = eb/thr, its logarithm, the power with that index
    q = z3.Real('q'); w = W(b, z3.ToReal(r)); fs = [q * thr == e0]
    for nm, (x, a, d) in [(k, v) for k, v in ex.fp.quots.items()]: fs.append(z3.Implies(z3.And(a == e0, d == thr), x == q))
    ax = [w > 0, L(w) == z3.ToReal(r) * L(b), z3.Implies(L(w) <= L(q), w <= q), z3.Implies(q > 1, L(q) > 0)]
    ex.oblige('the index is never negative', r >= 0, s2.pc, P, extra=fs + ax)
    ex.oblige('index * log(base) <= log(eb/threshold)', z3.Implies(r != 0, z3.ToReal(r) * lob <= L(q)), s2.pc, P, extra=fs + ax)
    ex.oblige('the tolerance kept is at most the derived one', z3.Implies(e0 >= 0, e1 <= e0), s2.pc, P + ('C03', 'C06'), extra=fs + ax + [z3.Implies(w <= q, w * thr <= q * thr), z3.Implies(r != 0, z3.ToReal(r) * lob <= L(q))])
    ex.oblige('the tolerance kept is positive unless the index is 0', z3.Implies(r > 0, e1 > 0), s2.pc, P + ('C03',), extra=fs + ax + [z3.Implies(z3.And(w > 0, thr > 0), w * thr > 0)])
    up = z3.And(e0 < z3.RealVal(2) ** 1024, thr >= z3.RealVal('1/%d' % 2 ** 52))
    ex.oblige('a finite tolerance is below 2^1076 thresholds', z3.Implies(up, q < z3.RealVal(2 ** 1076)), (), P, extra=fs[:1] + [z3.Implies(q >= 0, q * (thr - z3.RealVal('1/%d' % 2 ** 52)) >= 0)])
    ex.oblige('the index is at most 1076', z3.Implies(z3.And(up, r != 0), r <= 1076), s2.pc, P + ('C14',), extra=fs + ax + [z3.Implies(z3.And(q > 0, q < z3.RealVal(2 ** 1076)), L(q) <= 1076), lob >= 1, z3.Implies(r != 0, z3.ToReal(r) * lob <= L(q)), z3.Implies(up, q < z3.RealVal(2 ** 1076)), z3.Implies(r >= 0, z3.ToReal(r) * (lob - 1) >= 0)])
    ex.oblige('the tolerance kept is not negative', e1 >= 0, s2.pc, P, extra=fs + ax)
    rep.from_ex(ex, 'eb_exponential_quantize (reals)')
    rep.assume("log2 and pow over the reals: strictly monotone logarithm, log2(pow(b,i)) = i*log2(b), pow > 0 (library functions, rounding ignored)", "eb_exponential_quantize is called with log2 of its base")
