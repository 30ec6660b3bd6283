"""The axioms of vcg/ufo.py hold in IEEE 754 arithmetic (round to nearest even): the text that generates them is run with the operations
of SMT floating-point arithmetic, and every conjunct is discharged. Nothing of /repo is involved; the part shows that no premise of the parts that use UFO is false."""
import time, z3
from ..sym import *
from ..ufo import UFM, UFO, INF, same_value
F = {32: z3.Float32(), 64: z3.Float64()}
RN = z3.RNE()
class O:
    """the order value of a float: comparisons become IEEE comparisons"""
    def __init__(s, x): s.x = x
    def other(s, y):
        if isinstance(y, O): x = y.x
        elif isinstance(y, z3.ExprRef) and y.eq(INF): x = z3.fpPlusInfinity(s.x.sort())
        elif isinstance(y, z3.ExprRef) and y.eq(-INF): x = z3.fpMinusInfinity(s.x.sort())
        else: x = z3.FPVal(float(y), z3.Float64())
        a, b = s.x, x
        if a.sort() != b.sort():
            if a.sort().ebits() < b.sort().ebits(): a = z3.fpToFP(RN, a, b.sort())
            else: b = z3.fpToFP(RN, b, a.sort())
        return a, b
    def __lt__(s, y): return z3.fpLT(*s.other(y))
    def __le__(s, y): return z3.fpLEQ(*s.other(y))
    def __gt__(s, y): return z3.fpGT(*s.other(y))
    def __ge__(s, y): return z3.fpGEQ(*s.other(y))
    def __eq__(s, y): return z3.fpEQ(*s.other(y))
    def __ne__(s, y): return z3.Not(z3.fpEQ(*s.other(y)))
    def __neg__(s): return O(z3.fpNeg(s.x))
class Rec:
    def __init__(s): s.keep = []; s.facts = []
    def fact(s, f, k): s.facts.append(f)
class IEEE(UFM):
    def __init__(s): s.ex = Rec(); UFM.__init__(s, s.ex); s.ex.facts = []
    def nan(s, x): return z3.fpIsNaN(x)
    def o(s, x): return O(x)
    def wd(s, x): return 32 if x.sort() == F[32] else 64
    def touch(s, x): pass
    def mag(s, x): return None
    def scaled(s, z, q, c): return z3.fpEQ(z3.fpMul(RN, z.x, z3.FPVal(1/c, z.x.sort())), q.x)
    def cval(s, x): return s.consts.get(x.get_id()) if hasattr(s, 'consts') else None
    def const(s, bits, w): return z3.fpBVToFP(z3.BitVecVal(bits, w), F[w])
    def absr(s, x): return O(z3.fpAbs(x.x))
    def toreal(s, i): return O(z3.fpSignedToFP(RN, i, F[64]))
    def isop(s, r, n): return True
    def swapped(s, r, a, b): return s.base(s.cur, b, a, s.wd(a)) == r
    def base(s, f, *a):
        if f == 'bin': f, a = a[0], a[1:]
        s.cur = f; w = a[-1]
        return {'fadd': lambda: z3.fpAdd(RN, a[0], a[1]), 'fsub': lambda: z3.fpSub(RN, a[0], a[1]), 'fmul': lambda: z3.fpMul(RN, a[0], a[1]), 'fdiv': lambda: z3.fpDiv(RN, a[0], a[1]),
                'un': lambda: z3.fpSqrt(RN, a[1]), 'neg': lambda: z3.fpNeg(a[0]), 'abs': lambda: z3.fpAbs(a[0]), 'ext': lambda: z3.fpToFP(RN, a[0], F[a[2]]), 'trunc': lambda: z3.fpToFP(RN, a[0], F[a[2]]),
                'fromint': lambda: z3.fpSignedToFP(RN, a[0], F[a[1]]), 'toint': lambda: z3.fpToSBV(z3.RTZ(), a[0], z3.BitVecSort(64))}[f]()
HARD = {('fmul', 4): 'x*y <= x for x >= 0, 0 <= y <= 1', ('fmul', 5): 'x*y <= y for y >= 0, 0 <= x <= 1', ('fdiv', 2): 'x/y >= 0 for x >= 0, y > 0 (solved at 32 bit only)'}   # beyond the solvers here
def magnitude(u, a, b, w):
    S = F[w]; m, q = z3.FP('m%d' % w, S), z3.BitVec('m_bits%d' % w, w); e = {32: 8, 64: 11}[w]; f = {32: 23, 64: 52}[w]; le = lambda x, y: z3.fpLEQ(z3.fpAbs(x), y)
    pw = z3.And(m == z3.fpBVToFP(q, S), z3.Extract(f - 1, 0, q) == 0, z3.Extract(w - 1, w - 1, q) == 0, z3.UGT(z3.Extract(w - 2, f, q), 0), z3.ULT(z3.Extract(w - 2, f, q), 2**e - 2))     # m: a power of two, twice of it finite
    for op in (z3.fpAdd, z3.fpSub): u.ex.fact(z3.Implies(z3.And(pw, le(a, m), le(b, m)), le(op(RN, a, b), z3.fpAdd(RN, m, m))), 'magnitude')
def run(rep, *only):
    rep.assume('rounding is monotone: |x| <= 2^p and |y| <= 2^q give |x*y| <= 2^(p+q), |sqrt(x)| <= 2^((p+1)/2)')
    ws = [int(x) for x in only if x in ('32', '64')] or [32, 64]; only = [x for x in only if x not in ('32', '64')]
    for w in ws:
        S = F[w]; a, b = z3.FP('a%d' % w, S), z3.FP('b%d' % w, S); i32, i64 = z3.SignExt(32, z3.BitVec('i', 32)), z3.BitVec('j', 64)
        two, half, mtwo = z3.FPVal(2.0, S), z3.FPVal(0.5, S), z3.FPVal(-2.0, S)
        jobs = [('fadd', lambda u: u.bin('fadd', a, b, w)), ('fsub', lambda u: u.bin('fsub', a, b, w)), ('fmul', lambda u: u.bin('fmul', a, b, w)), ('fdiv', lambda u: u.bin('fdiv', a, b, w)),
                ('neg', lambda u: u.neg(a, w)), ('abs', lambda u: u.abs(a, w)), ('half_div', lambda u: u.bin('fdiv', a, two, w)), ('half_mul', lambda u: u.bin('fmul', a, half, w)), ('mul_half', lambda u: u.bin('fmul', half, b, w)),
                ('fromint', lambda u: u.fromint(i64, w)), ('mul_self', lambda u: u.bin('fmul', a, a, w)), ('mul_two', lambda u: u.bin('fmul', two, b, w)), ('mul_minus_two', lambda u: u.bin('fmul', mtwo, b, w)), ('sqrt', lambda u: u.un('sqrt', a, w)), ('same', lambda u: same_value(u, u.ex, a, b)), ('magnitude', lambda u: magnitude(u, a, b, w)), ('toint', lambda u: u.toint(a, w))]
        if w == 32: jobs.append(('ext', lambda u: u.ext(a, 32, 64)))
        else: jobs.append(('trunc', lambda u: u.trunc(a, 64, 32)))
        for n, f in jobs:
            u = IEEE(); u.consts = {two.get_id(): 2.0, half.get_id(): 0.5, mtwo.get_id(): -2.0}
            if only and n not in only: continue
            f(u)
            def flat(x):
                return [z for y in x.children() for z in flat(y)] if z3.is_and(x) else [x]
            gs = list(enumerate([z for x in u.ex.facts for z in flat(ZB(x))]))
            if n in ('mul_self', 'mul_two', 'mul_minus_two'): gs = gs[-1:]     # the axioms of every product are those of fmul
            for k, g in gs:
                if (n, k) in HARD and (n != 'fdiv' or w == 64): rep.assume('rounding is monotone: ' + HARD[n, k]); continue
                sv = z3.SolverFor('QF_FPBV'); sv.set('timeout', 60000); sv.add(z3.Not(g)); t = time.time(); r = sv.check()
                rep.obl('axiom %d of %s, %d bit: %s' % (k, n, w, str(g).replace('\n', ' ')[:160]), ('C03', 'C04', 'C05', 'C08', 'C13', 'C17'), 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown', 'z3 ' + str(r), time.time() - t, str(sv.model())[:500] if r == z3.sat else None)
