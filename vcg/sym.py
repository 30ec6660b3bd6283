"""Forward symbolic execution / verification-condition generation over the extracted SSA.
Loops are cut at their headers by invariants (closed forms of linear variables over a ghost iteration counter, plus
inferred and checked candidates); calls go to the callee's contract or are executed in place."""
import z3, re, time, itertools
from . import ir
from .ir import tsize, foff, ExtractError

class Unsupported(Exception): pass
class VCFail(Exception): pass
IntS = z3.IntSort()

# ------------------------------------------------------------------ small term helpers (python ints/bools are constants)
def isc(x): return isinstance(x, int) and not isinstance(x, bool)
def ZI(x): return z3.IntVal(x) if isinstance(x, int) else x
def ZB(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def bnot(c):
    if isinstance(c, bool): return not c
    if z3.is_not(c): return c.arg(0)
    return z3.Not(c)
def band(*cs):
    out = []
    for c in cs:
        if c is False: return False
        if c is True: continue
        out.append(c)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def bor(*cs):
    out = []
    for c in cs:
        if c is True: return True
        if c is False: continue
        out.append(c)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def same(a, b):
    if a is b: return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj is b.obj and a.es == b.es and same(a.idx, b.idx)
    if isinstance(a, PtrIte) or isinstance(b, PtrIte): return False
    if type(a) is type(b) and not isinstance(a, z3.ExprRef): return a == b
    return False

def poly(t, depth=0):
    """polynomial normal form {monomial(tuple of sorted ids): (coef, factors)}"""
    if isinstance(t, int): return {(): (t, ())} if t else {}
    if z3.is_int_value(t): v = t.as_long(); return {(): (v, ())} if v else {}
    k = t.decl().kind()
    def addp(p, q, s=1):
        r = dict(p)
        for m, (c, f) in q.items():
            c0 = r.get(m, (0, f))[0] + s * c
            if c0: r[m] = (c0, f)
            else: r.pop(m, None)
        return r
    if k == z3.Z3_OP_ADD:
        r = {}
        for a in t.children(): r = addp(r, poly(a))
        return r
    if k == z3.Z3_OP_SUB:
        ch = t.children(); r = poly(ch[0])
        for a in ch[1:]: r = addp(r, poly(a), -1)
        return r
    if k == z3.Z3_OP_UMINUS: return addp({}, poly(t.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        r = {(): (1, ())}
        for a in t.children():
            q = poly(a); n = {}
            for m1, (c1, f1) in r.items():
                for m2, (c2, f2) in q.items():
                    fs = sorted(f1 + f2, key=lambda e: e.get_id()); m = tuple(e.get_id() for e in fs)
                    c = n.get(m, (0, None))[0] + c1 * c2
                    if c: n[m] = (c, tuple(fs))
                    else: n.pop(m, None)
            r = n
        return r
    return {(t.get_id(),): (1, (t,))}
def unpoly(p):
    if not p: return 0
    ts = []; c0 = 0
    for m in sorted(p, key=lambda m: (len(m), m)):
        c, fs = p[m]
        if not fs: c0 = c; continue
        e = fs[0]
        for f in fs[1:]: e = e * f
        ts.append(e if c == 1 else z3.IntVal(c) * e)
    if not ts: return c0
    e = ts[0]
    for t in ts[1:]: e = e + t
    return e if c0 == 0 else e + c0
def norm(t): return t if isinstance(t, int) else unpoly(poly(t))
def padd(a, b):
    if isc(a) and isc(b): return a + b
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return norm(ZI(a) + ZI(b))
def psub(a, b):
    if isc(a) and isc(b): return a - b
    if isc(b) and b == 0: return a
    return norm(ZI(a) - ZI(b))
def pmul(a, b):
    if isc(a) and isc(b): return a * b
    if isc(a) and a == 1: return b
    if isc(b) and b == 1: return a
    if (isc(a) and a == 0) or (isc(b) and b == 0): return 0
    return norm(ZI(a) * ZI(b))
def div_exact(t, k):
    if k == 1: return t
    p = poly(t) if not isc(t) else ({(): (t, ())} if t else {})
    r = {}
    for m, (c, f) in p.items():
        if c % k: return None
        r[m] = (c // k, f)
    return unpoly(r)
_fv_cache = {}
def freevars(t):
    if not isinstance(t, z3.ExprRef): return frozenset()
    i = t.get_id()
    if i in _fv_cache: return _fv_cache[i][1]
    seen, out, st = set(), set(), [t]
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): st.append(e.body()); continue
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(e.decl().name())
        elif z3.is_app(e): st.extend(e.children())
    r = frozenset(out); _fv_cache[i] = (t, r); return r

# ------------------------------------------------------------------ values
class Obj:
    _n = 0
    def __init__(s, name, kind, size=None, ety=None):
        Obj._n += 1; s.id = Obj._n; s.name, s.kind, s.size, s.ety = name, kind, size, ety
        s.ro = False; s.final = None; s.final_bad = None; s.origin = None; s.stored = False; s.freed = False; s.touched = []
    def __repr__(s): return "%s#%d" % (s.name, s.id)
class Ptr:
    __slots__ = ('obj', 'idx', 'es')
    def __init__(s, obj, idx=0, es=1): s.obj, s.idx, s.es = obj, idx, es
    def byteoff(s): return pmul(s.idx, s.es)
    def __repr__(s): return "&%s[%s*%d]" % (s.obj, s.idx, s.es)
NULL = Ptr(None, 0, 1)
class PtrIte:
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b
class Agg:
    def __init__(s, v): s.v = v
    def __eq__(s, o): return isinstance(o, Agg) and len(s.v) == len(o.v) and all(same(a, b) for a, b in zip(s.v, o.v))
class Undef: pass
UNDEF = Undef()

class Mem:
    """state of one object; immutable"""
    __slots__ = ('kind', 'd')
    def __init__(s, kind, d): s.kind, s.d = kind, d

class State:
    __slots__ = ('pc', 'mem', 'log')
    def __init__(s, pc=(), mem=None, log=()): s.pc, s.mem, s.log = pc, mem if mem is not None else {}, log
    def fork(s, *lits):
        pc = s.pc
        for l in lits:
            if l is True: continue
            pc = pc + (l,)
        return State(pc, dict(s.mem), s.log)

# ------------------------------------------------------------------ floating point domains
class UF:
    """uninterpreted floats: equality of results by congruence only (bit-exact), order facts by instantiated axioms"""
    name = "uninterpreted (bit-exact) floating point"
    def __init__(s, ex):
        s.ex = ex; s.S = {32: z3.DeclareSort('F32'), 64: z3.DeclareSort('F64'), 128: z3.DeclareSort('F80')}; s.fns = {}; s.cv = {}; s.seen = set()
    def sort(s, w): return s.S[w]
    def fn(s, name, *sorts):
        k = (name,) + tuple(x.name() for x in sorts)
        if k not in s.fns: s.fns[k] = z3.Function("_".join(k), *sorts)
        return s.fns[k]
    def const(s, bits, w):
        k = (bits, w)
        if k not in s.cv:
            try: nm = repr(ir.fval(bits, w))
            except Exception: nm = str(bits)
            s.cv[k] = z3.Const("c%d:%s" % (w, nm), s.S[w])
            s.cv[s.cv[k].get_id()] = k
        return s.cv[k]
    def cval(s, x):
        k = s.cv.get(x.get_id())
        return ir.fval(*k) if k and k[1] in (32, 64) else None
    def fresh(s, nm, w): return z3.Const(s.ex.fresh_name(nm), s.S[w])
    def bin(s, op, a, b, w):
        if op in ('fadd', 'fmul') and a.get_id() > b.get_id(): a, b = b, a
        ca, cb = s.cval(a), s.cval(b)
        if ca is not None and cb is not None and w in (32, 64):
            try:
                r = {'fadd': lambda: ca + cb, 'fsub': lambda: ca - cb, 'fmul': lambda: ca * cb, 'fdiv': lambda: ca / cb}[op]()
                return s.const(ir.fbits(r, w), w)
            except Exception: pass
        if op == 'fsub':  # x - y == x + (-y) bit for bit
            pass
        return s.fn(op + str(w), s.S[w], s.S[w], s.S[w])(a, b)
    def neg(s, a, w):
        c = s.cval(a)
        if c is not None: return s.const(ir.fbits(-c, w), w)
        return s.fn('fneg%d' % w, s.S[w], s.S[w])(a)
    def abs(s, a, w):
        c = s.cval(a)
        if c is not None: return s.const(ir.fbits(abs(c), w), w)
        n = a.decl().name()
        if n.startswith('fneg'): return s.abs(a.arg(0), w)
        if n.startswith('fabs'): return a
        if n.startswith('fsub') and a.arg(0).get_id() > a.arg(1).get_id():  # |x-y| == |y-x|
            a = s.fn('fsub%d' % w, s.S[w], s.S[w], s.S[w])(a.arg(1), a.arg(0))
        if n.startswith('fpext'): return s.ext(s.abs(a.arg(0), 32), 32, w)
        return s.fn('fabs%d' % w, s.S[w], s.S[w])(a)
    def ext(s, a, w1, w2):
        c = s.cval(a)
        if c is not None: return s.const(ir.fbits(c, w2), w2)
        return s.fn('fpext%d_%d' % (w1, w2), s.S[w1], s.S[w2])(a)
    def trunc(s, a, w1, w2):
        c = s.cval(a)
        if c is not None and w2 == 32:
            try: return s.const(ir.fbits(c, w2), w2)
            except OverflowError: pass
        if a.decl().name().startswith('fpext') and a.arg(0).sort() == s.S[w2]: return a.arg(0)
        return s.fn('fptrunc%d_%d' % (w1, w2), s.S[w1], s.S[w2])(a)
    def un(s, name, a, w): return s.fn(name + str(w), s.S[w], s.S[w])(a)
    def bin2(s, name, a, b, w): return s.fn(name + str(w), s.S[w], s.S[w], s.S[w])(a, b)
    def fromint(s, i, w, signed=True):
        if isc(i): return s.const(ir.fbits(float(i), w), w)
        return s.fn('itof%d' % w, IntS, s.S[w])(i)
    def toint(s, a, w):
        c = s.cval(a)
        if c is not None and abs(c) < 2**62: return int(c)
        if a.decl().name().startswith('itof') and w == 64: return a.arg(0)
        return s.fn('ftoi%d' % w, s.S[w], IntS)(a)
    def _lt(s, a, b, w):
        t = s.fn('flt%d' % w, s.S[w], s.S[w], z3.BoolSort())(a, b); s.rel(a, b, w); return t
    def _le(s, a, b, w):
        t = s.fn('fle%d' % w, s.S[w], s.S[w], z3.BoolSort())(a, b); s.rel(a, b, w); return t
    def _eq(s, a, b, w):
        if a.get_id() > b.get_id(): a, b = b, a
        t = s.fn('feq%d' % w, s.S[w], s.S[w], z3.BoolSort())(a, b); s.rel(a, b, w); return t
    def rel(s, a, b, w):
        k = (min(a.get_id(), b.get_id()), max(a.get_id(), b.get_id()))
        if k in s.seen: return
        s.seen.add(k); s.ex.keep.append((a, b))
        B = z3.BoolSort(); lt = s.fn('flt%d' % w, s.S[w], s.S[w], B); le = s.fn('fle%d' % w, s.S[w], s.S[w], B); eq = s.fn('feq%d' % w, s.S[w], s.S[w], B)
        x, y = (a, b) if a.get_id() <= b.get_id() else (b, a)
        e = eq(x, y)
        s.ex.fact(z3.And(z3.Implies(lt(x, y), z3.And(le(x, y), z3.Not(e), z3.Not(le(y, x)))), z3.Implies(lt(y, x), z3.And(le(y, x), z3.Not(e), z3.Not(le(x, y)))),
                         z3.Implies(e, z3.And(le(x, y), le(y, x))), z3.Implies(z3.And(le(x, y), le(y, x)), e)), "float-order")
    def cmp(s, pr, a, b, w):
        ca, cb = s.cval(a), s.cval(b)
        if ca is not None and cb is not None:
            u = ca != ca or cb != cb
            base = {'eq': ca == cb, 'ne': ca != cb, 'lt': ca < cb, 'le': ca <= cb, 'gt': ca > cb, 'ge': ca >= cb}
            if pr[1:] in base:
                return (not u and base[pr[1:]]) if pr[0] == 'o' else (u or base[pr[1:]])
        m = {'olt': lambda: s._lt(a, b, w), 'ogt': lambda: s._lt(b, a, w), 'ole': lambda: s._le(a, b, w), 'oge': lambda: s._le(b, a, w), 'oeq': lambda: s._eq(a, b, w),
             'ult': lambda: bnot(s._le(b, a, w)), 'ugt': lambda: bnot(s._le(a, b, w)), 'ule': lambda: bnot(s._lt(b, a, w)), 'uge': lambda: bnot(s._lt(a, b, w)), 'une': lambda: bnot(s._eq(a, b, w)),
             'one': lambda: bor(s._lt(a, b, w), s._lt(b, a, w)), 'ueq': lambda: bnot(bor(s._lt(a, b, w), s._lt(b, a, w)))}
        if pr in ('ord', 'uno'):
            nan = s.fn('isnan%d' % w, s.S[w], z3.BoolSort())
            t = z3.Or(nan(a), nan(b)); return t if pr == 'uno' else z3.Not(t)
        return m[pr]()

class RealD:
    """floats as mathematical reals (rounding ignored): only for the lemmas about derived tolerances"""
    name = "real arithmetic (rounding ignored)"
    def __init__(s, ex): s.ex = ex; s.roots = {}; s.quots = {}
    def sort(s, w): return z3.RealSort()
    def const(s, bits, w):
        from fractions import Fraction
        v = ir.fval(bits, w)
        if v != v or v in (float('inf'), float('-inf')): raise Unsupported("infinite constant in real mode")
        return z3.RealVal(str(Fraction(v)))
    def cval(s, x): return None
    def fresh(s, nm, w): return z3.Real(s.ex.fresh_name(nm))
    def bin(s, op, a, b, w):
        if op == 'fdiv':
            # quotient as a fresh value defined by multiplication; division by zero stays unspecified
            key = ('div', a.get_id(), b.get_id())
            if key in s.roots: return s.roots[key][0]
            q = s.fresh('quot', w); s.ex.fact(z3.Implies(b != 0, q * b == a), "quotient"); s.roots[key] = (q, a, b); s.quots[q.get_id()] = (q, a, b); return q
        return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b}[op]()
    def neg(s, a, w): return -a
    canon = False
    def abs(s, a, w):
        if not s.canon: return z3.If(a >= 0, a, -a)
        k = z3.simplify(a, som=True); n = z3.simplify(-a, som=True)
        for q in (k, n):
            if ('abs', q.get_id()) in s.roots: return s.roots[('abs', q.get_id())][0]
        r = s.fresh('abs', w); s.ex.fact(z3.And(r >= 0, z3.Or(r == a, r == -a)), 'absolute value'); s.roots[('abs', k.get_id())] = (r, k, a); return r
    def ext(s, a, w1, w2): return a
    def trunc(s, a, w1, w2): return a
    def un(s, name, a, w):
        if name in ('sqrt', 'cbrt'):
            key = (name, a.get_id())
            if key in s.roots: return s.roots[key][0]
            r = s.fresh(name, w)
            if name == 'sqrt': s.ex.fact(z3.Implies(a >= 0, z3.And(r >= 0, r * r == a)), "sqrt")
            else: s.ex.fact(r * r * r == a, "cbrt")
            s.roots[key] = (r, a); return r
        if name == 'floor': return z3.ToReal(z3.ToInt(a))
        if name == 'ceil': return -z3.ToReal(z3.ToInt(-a))
        if name == 'trunc': return z3.If(a >= 0, z3.ToReal(z3.ToInt(a)), -z3.ToReal(z3.ToInt(-a)))
        if name == 'round': return z3.If(a >= 0, z3.ToReal(z3.ToInt(a + z3.Q(1, 2))), -z3.ToReal(z3.ToInt(-a + z3.Q(1, 2))))
        return z3.Function(name, z3.RealSort(), z3.RealSort())(a)
    def bin2(s, name, a, b, w): return z3.Function(name, z3.RealSort(), z3.RealSort(), z3.RealSort())(a, b)
    def fromint(s, i, w, signed=True): return z3.RealVal(i) if isc(i) else z3.ToReal(i)
    def toint(s, a, w): return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
    def cmp(s, pr, a, b, w):
        if pr in ('ord', 'uno'): return pr == 'ord'
        for x, y, lt, le in ((a, b, lambda p, q: p < q, lambda p, q: p <= q), (b, a, lambda p, q: p > q, lambda p, q: p >= q)):   # x/d against y, multiplied out
            if x.get_id() in s.quots:
                q, n, d = s.quots[x.get_id()]
                s.ex.fact(z3.And(z3.Implies(d > 0, z3.And((q < y) == (n < y*d), (q <= y) == (n <= y*d))), z3.Implies(d < 0, z3.And((q < y) == (n > y*d), (q <= y) == (n >= y*d)))), 'quotient')
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr[1:]]

class FPD:
    """IEEE-754 floats decided by the solver's floating-point theory"""
    name = "IEEE-754 (solver floating-point theory)"
    def __init__(s, ex): s.ex = ex; s.S = {32: z3.Float32(), 64: z3.Float64()}; s.rm = z3.RNE(); s.apps = {}
    def sort(s, w): return s.S[w]
    def const(s, bits, w): return z3.fpBVToFP(z3.BitVecVal(bits, w), s.S[w])
    def cval(s, x): return None
    def fresh(s, nm, w): return z3.FP(s.ex.fresh_name(nm), s.S[w])
    def bin(s, op, a, b, w): return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](s.rm, a, b)
    def neg(s, a, w): return z3.fpNeg(a)
    def abs(s, a, w): return z3.fpAbs(a)
    def ext(s, a, w1, w2): return z3.fpFPToFP(s.rm, a, s.S[w2])
    def trunc(s, a, w1, w2): return z3.fpFPToFP(s.rm, a, s.S[w2])
    def un(s, name, a, w):
        if name == 'sqrt': return z3.fpSqrt(s.rm, a)
        return z3.Function(name + str(w), s.S[w], s.S[w])(a)
    def bin2(s, name, a, b, w): return z3.Function(name + str(w), s.S[w], s.S[w], s.S[w])(a, b)
    def fromint(s, i, w, signed=True): return (z3.fpSignedToFP if signed else z3.fpUnsignedToFP)(s.rm, i if not isc(i) else z3.BitVecVal(i, 64), s.S[w])
    def toint(s, a, w): return z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(w))
    def cmp(s, pr, a, b, w):
        o = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pr == 'ord': return z3.Not(un)
        if pr == 'uno': return un
        if pr[1:] == 'ne': return z3.Not(z3.fpEQ(a, b)) if pr[0] == 'u' else z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))
        r = o[pr[1:]](a, b); return r if pr[0] == 'o' else z3.Or(un, r)

class FPQ(FPD):
    """exact, but for division: an unconstrained quotient except that non-negative / non-negative is non-negative or NaN; x/2^k is exact scaling"""
    def app(s, op, a, b, w):
        """uninterpreted application, with congruence spelled out"""
        L = s.apps.setdefault((op, w), [])
        for x, y, v in L:
            if x.eq(a) and y.eq(b): return v
        v = z3.FP(s.ex.fresh_name(op), s.S[w])
        for x, y, u in L:
            s.ex.fact(z3.Implies(z3.And(a == x, b == y), v == u), 'congruence')
            if op in ('fadd', 'fmul'): s.ex.fact(z3.Implies(z3.And(a == y, b == x), v == u), 'congruence')
            if op == 'fsub': s.ex.fact(z3.Implies(z3.And(a == y, b == x), z3.fpAbs(v) == z3.fpAbs(u)), 'congruence')
        L.append((a, b, v)); return v
    def half(s, b, w):
        v = z3.simplify(b)
        return z3.is_fp_value(v) and any(z3.is_true(z3.simplify(z3.fpEQ(v, z3.FPVal(k, s.S[w])))) for k in (2.0, 4.0, 8.0)) and z3.simplify(z3.fpDiv(s.rm, z3.FPVal(1.0, s.S[w]), v))
    def bin(s, op, a, b, w):
        if op == 'fdiv':
            h = s.half(b, w)
            if h is not False: return z3.fpMul(s.rm, a, h)
            q = s.app('quot', a, b, w); zero = z3.FPVal(0, s.S[w])
            s.ex.fact(z3.And(z3.Implies(z3.And(z3.fpGEQ(a, zero), z3.fpGEQ(b, zero), z3.Not(z3.fpIsNaN(q))), z3.fpGEQ(q, zero)), z3.Implies(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)), z3.fpIsNaN(q))), 'sign of a quotient')
            return q
        return FPD.bin(s, op, a, b, w)
class FPA(FPQ):
    """as FPQ, and sums, differences and products of two variables are only known to be functions (commutative, |a-b| = |b-a|)"""
    def isv(s, x): return z3.is_fp_value(z3.simplify(x))
    def bin(s, op, a, b, w):
        if op == 'fdiv' or s.isv(a) or s.isv(b): return FPQ.bin(s, op, a, b, w)
        return s.app(op, a, b, w)
    def abs(s, a, w):
        if a.decl().kind() == z3.Z3_OP_FPA_TO_FP and a.num_args() == 2 and a.arg(1).sort() == s.S[32] and w == 64: return s.ext(s.abs(a.arg(1), 32), 32, 64)
        return z3.fpAbs(a)

# ------------------------------------------------------------------ integer domains
class IntMath:
    name = "mathematical integers (machine arithmetic assumed not to wrap)"
    def __init__(s, ex): s.ex = ex; s.nnv = set()
    def sort(s, w): return IntS
    def fresh(s, nm, w): return z3.Int(s.ex.fresh_name(nm))
    def const(s, v, w): return v
    def nn(s, t):
        """syntactically non-negative"""
        if isc(t): return t >= 0
        if z3.is_int_value(t): return t.as_long() >= 0
        k = t.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL): return all(s.nn(c) for c in t.children())
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV): return all(s.nn(c) for c in t.children())
        if k == z3.Z3_OP_MOD: return True
        if k == z3.Z3_OP_ITE: return s.nn(t.arg(1)) and s.nn(t.arg(2))
        return z3.is_const(t) and t.decl().name() in s.nnv
    def add(s, a, b, w): return padd(a, b)
    def sub(s, a, b, w): return psub(a, b)
    def mul(s, a, b, w): return pmul(a, b)
    def udiv(s, a, b, w):
        if isc(a) and isc(b) and b: return a // b
        if isc(b):
            r = div_exact(a, b)
            if r is not None: return r
        return ZI(a) / ZI(b)
    def sdiv(s, a, b, w):
        if isc(a) and isc(b) and b:
            q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
        if isc(b) and b > 0:
            r = div_exact(a, b)
            if r is not None: return r
            if s.nn(a): return ZI(a) / ZI(b)
            return z3.If(ZI(a) >= 0, ZI(a) / ZI(b), -((-ZI(a)) / ZI(b)))
        if s.nn(a) and s.nn(b): return ZI(a) / ZI(b)
        return z3.Function('sdiv', IntS, IntS, IntS)(ZI(a), ZI(b))
    def urem(s, a, b, w):
        if isc(a) and isc(b) and b: return a % b
        return ZI(a) % ZI(b)
    def srem(s, a, b, w):
        if isc(a) and isc(b) and b: return a - b * s.sdiv(a, b, w)
        if s.nn(a) or (isc(b) and b > 0): 
            if s.nn(a): return ZI(a) % ZI(b)
            return z3.If(ZI(a) >= 0, ZI(a) % ZI(b), -((-ZI(a)) % ZI(b)))
        return z3.Function('srem', IntS, IntS, IntS)(ZI(a), ZI(b))
    def and_(s, a, b, w):
        if isc(a) and isc(b): return a & b
        if isc(a): a, b = b, a
        if isc(b):
            if b == 0: return 0
            if b == -1 or b == (1 << w) - 1: return a
            if b > 0 and (b & (b + 1)) == 0: return ZI(a) % (b + 1)
        return s.uf('band', a, b)
    def or_(s, a, b, w):
        if isc(a) and isc(b): return a | b
        if isc(a) and a == 0: return b
        if isc(b) and b == 0: return a
        return s.uf('bor', a, b)
    def xor(s, a, b, w):
        if isc(a) and isc(b): return a ^ b
        if isc(b) and b == -1: return psub(-1, a)
        return s.uf('bxor', a, b)
    def uf(s, n, a, b):
        a, b = ZI(a), ZI(b)
        if a.get_id() > b.get_id(): a, b = b, a
        return z3.Function(n, IntS, IntS, IntS)(a, b)
    def shl(s, a, b, w):
        if isc(b): return pmul(a, 1 << b)
        if isc(a) and a == 1: return s.pow2(b)
        return pmul(a, s.pow2(b))
    def pow2(s, b):
        t = z3.Function('pow2', IntS, IntS)(b); s.ex.fact(t >= 1, "pow2"); return t
    def lshr(s, a, b, w):
        if isc(a) and isc(b): return a >> b if a >= 0 else (a & ((1 << w) - 1)) >> b
        if isc(b):
            if s.nn(a): return ZI(a) / (1 << b)
            return z3.If(ZI(a) >= 0, ZI(a) / (1 << b), (ZI(a) + (1 << w)) / (1 << b))
        return ZI(a) / ZI(s.pow2(b))
    def ashr(s, a, b, w):
        if isc(a) and isc(b): return a >> b
        if isc(b): return ZI(a) / (1 << b)
        return ZI(a) / ZI(s.pow2(b))
    def icmp(s, pr, a, b, w):
        if isc(a) and isc(b):
            if pr[0] == 'u' : a, b = a % (1 << w), b % (1 << w)
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr if pr in ('eq', 'ne') else pr[1:]]
        if pr in ('eq', 'ne'):
            d = psub(a, b)
            if isc(d): return (d == 0) == (pr == 'eq')
            # canonical: smaller side to the right
            e = ZI(a) == ZI(b); return e if pr == 'eq' else z3.Not(e)
        if pr[1:] in ('gt', 'ge'): return s.icmp(pr[0] + {'gt': 'lt', 'ge': 'le'}[pr[1:]], b, a, w)
        if pr[0] == 'u' and not (s.nn(a) and s.nn(b)):
            A, B = ZI(a), ZI(b); c = A < B if pr == 'ult' else A <= B
            if s.nn(b): 
                return z3.And(A >= 0, c)
            if s.nn(a): return z3.Or(B < 0, c)
            return z3.If((A >= 0) == (B >= 0), c, A >= 0)
        d = psub(a, b)
        if isc(d): return d < 0 if pr[1:] == 'lt' else d <= 0
        return ZI(a) < ZI(b) if pr[1:] == 'lt' else ZI(a) <= ZI(b)
    def trunc(s, a, w1, w2):
        if w2 == 1: return s.icmp('ne', s.and_(a, 1, w1), 0, w1)
        if isc(a):
            a &= (1 << w2) - 1; return a - (1 << w2) if a >> (w2 - 1) else a
        if w2 < 32 and not s.byteok(a, w2):
            return z3.Function('trunc%d' % w2, IntS, IntS)(a)
        return a
    def byteok(s, a, w):
        if z3.is_app_of(a, z3.Z3_OP_ITE): return all(isc(c) or (z3.is_int_value(c) and 0 <= c.as_long() < 128) or s.byteok(c, w) for c in a.children()[1:])
        return z3.is_int_value(a) and 0 <= a.as_long() < 128 or (z3.is_const(a) and a.decl().name() in s.ex.byteconst) or (z3.is_select(a) and s.ex.isbyte(a))
    def zext(s, a, w1, w2):
        if w1 == 1: return z3.If(a, z3.IntVal(1), z3.IntVal(0)) if not isinstance(a, bool) else int(a)
        if isc(a): return a & ((1 << w1) - 1)
        if s.nn(a) or s.ex.assume_nonneg_zext(a): return a
        return z3.If(ZI(a) >= 0, ZI(a), ZI(a) + (1 << w1))
    def sext(s, a, w1, w2):
        if w1 == 1: return z3.If(a, z3.IntVal(-1), z3.IntVal(0)) if not isinstance(a, bool) else -int(a)
        return a
    def ite(s, c, a, b):
        if isinstance(c, bool): return a if c else b
        if same(a, b): return a
        a, b = ZI(a), ZI(b)
        return a if a.eq(b) else z3.If(c, a, b)
    def lift(s, a, w): return ZI(a)

class IntBV:
    name = "bit-vectors (exact machine arithmetic)"
    def __init__(s, ex): s.ex = ex
    def sort(s, w): return z3.BitVecSort(w)
    def fresh(s, nm, w): return z3.BitVec(s.ex.fresh_name(nm), w)
    def const(s, v, w): return v
    def L(s, a, w): return z3.BitVecVal(a, w) if isc(a) else a
    lift = L
    def fold(s, f, a, b, w):
        r = f(a & ((1 << w) - 1), b & ((1 << w) - 1)) & ((1 << w) - 1); return r - (1 << w) if r >> (w - 1) else r
    def bin(s, f, g, a, b, w):
        if isc(a) and isc(b):
            return s.fold(f, a, b, w)
        return g(s.L(a, w), s.L(b, w))
    def add(s, a, b, w):
        if isc(b) and b == 0: return a
        if isc(a) and a == 0: return b
        return s.bin(lambda x, y: x + y, lambda x, y: x + y, a, b, w)
    def sub(s, a, b, w): return s.bin(lambda x, y: x - y, lambda x, y: x - y, a, b, w)
    def mul(s, a, b, w): return s.bin(lambda x, y: x * y, lambda x, y: x * y, a, b, w)
    def udiv(s, a, b, w): return s.bin(lambda x, y: x // y, z3.UDiv, a, b, w)
    def urem(s, a, b, w): return s.bin(lambda x, y: x % y, z3.URem, a, b, w)
    def sdiv(s, a, b, w):
        if isc(a) and isc(b): return IntMath.sdiv(s, a, b, w)
        return s.L(a, w) / s.L(b, w)
    def srem(s, a, b, w):
        if isc(a) and isc(b): return a - b * IntMath.sdiv(s, a, b, w)
        return z3.SRem(s.L(a, w), s.L(b, w))
    def and_(s, a, b, w): return s.bin(lambda x, y: x & y, lambda x, y: x & y, a, b, w)
    def or_(s, a, b, w): return s.bin(lambda x, y: x | y, lambda x, y: x | y, a, b, w)
    def xor(s, a, b, w): return s.bin(lambda x, y: x ^ y, lambda x, y: x ^ y, a, b, w)
    def shl(s, a, b, w): return s.bin(lambda x, y: x << y, lambda x, y: x << y, a, b, w)
    def lshr(s, a, b, w): return s.bin(lambda x, y: x >> y, z3.LShR, a, b, w)
    def ashr(s, a, b, w):
        if isc(a) and isc(b): return a >> b
        return s.L(a, w) >> s.L(b, w)
    def icmp(s, pr, a, b, w):
        if isc(a) and isc(b): return IntMath.icmp(s, pr, a, b, w)
        a, b = s.L(a, w), s.L(b, w)
        return {'eq': lambda: a == b, 'ne': lambda: z3.Not(a == b), 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: b < a, 'sge': lambda: b <= a,
                'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.ULT(b, a), 'uge': lambda: z3.ULE(b, a)}[pr]()
    def trunc(s, a, w1, w2):
        if isc(a):
            if w2 == 1: return bool(a & 1)
            a &= (1 << w2) - 1; return a - (1 << w2) if a >> (w2 - 1) else a
        r = z3.Extract(w2 - 1, 0, a); return r == 1 if w2 == 1 else r
    def zext(s, a, w1, w2):
        if w1 == 1: return int(a) if isinstance(a, bool) else z3.If(a, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
        if isc(a): return a & ((1 << w1) - 1)
        return z3.ZeroExt(w2 - w1, a)
    def sext(s, a, w1, w2):
        if w1 == 1: return -int(a) if isinstance(a, bool) else z3.If(a, z3.BitVecVal(-1, w2), z3.BitVecVal(0, w2))
        if isc(a): return a
        return z3.SignExt(w2 - w1, a)
    def ite(s, c, a, b):
        if isinstance(c, bool): return a if c else b
        if same(a, b): return a
        w = a.size() if not isc(a) else (b.size() if not isc(b) else 64)
        return z3.If(c, s.L(a, w), s.L(b, w))
    def nn(s, t): return isc(t) and t >= 0

# ------------------------------------------------------------------ CFG helpers
class Loop:
    def __init__(s, header): s.header, s.body, s.parent, s.children, s.depth = header, set(), None, [], 0
def cfg(f):
    if hasattr(f, 'rpo'): return
    seen, order = set(), []
    st = [(f.order[0], iter(f.blocks[f.order[0]].succ))]; seen.add(f.order[0])
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen: seen.add(x); st.append((x, iter(f.blocks[x].succ))); break
        else: order.append(b); st.pop()
    f.rpo = order[::-1]; num = {b: i for i, b in enumerate(f.rpo)}
    idom = {f.rpo[0]: f.rpo[0]}; ch = True
    while ch:
        ch = False
        for b in f.rpo[1:]:
            n = None
            for p in f.blocks[b].pred:
                if p in idom:
                    if n is None: n = p
                    else:
                        x, y = p, n
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        n = x
            if idom.get(b) != n: idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if idom[b] == b: return False
            b = idom[b]
    loops = {}
    for b in f.rpo:
        for x in f.blocks[b].succ:
            if x in num and dom(x, b):
                L = loops.setdefault(x, Loop(x)); L.body |= {x}; w = [b]
                while w:
                    y = w.pop()
                    if y in L.body: continue
                    L.body.add(y); w += [p for p in f.blocks[y].pred if p in num]
            elif x in num and num[x] <= num[b]: raise Unsupported("irreducible control flow in " + f.name)
    ls = sorted(loops.values(), key=lambda L: len(L.body))
    for i, L in enumerate(ls):
        for M in ls[i+1:]:
            if L.header in M.body: L.parent = M; M.children.append(L); break
    f.loops = loops; f.num = num
    f.inner = {b: None for b in f.rpo}
    for L in reversed(ls):
        for b in L.body: f.inner[b] = L

class Frame:
    def __init__(s, fn, mod, path): s.fn, s.mod, s.env, s.path = fn, mod, {}, path
class Edge:
    __slots__ = ('src', 'dst', 'st', 'phi')
    def __init__(s, src, dst, st, phi): s.src, s.dst, s.st, s.phi = src, dst, st, phi

class Obl:
    def __init__(s, name, props, ok, how, secs, model=None): s.name, s.props, s.ok, s.how, s.secs, s.model = name, props, ok, how, secs, model

class LoopRec:
    """what is known about one loop after it has been processed (used to align a decoder loop with an encoder loop)"""
    pass
