"""Uninterpreted floats placed in a linear order: every non-NaN float x has a real ord(x) (its value; the infinities at +-INF), comparisons are
comparisons of ord, and the operations obey the axioms below, each a consequence of IEEE 754 (checked by solver in part `fpax`)."""
import z3
from fractions import Fraction
from .sym import *
INF = z3.Real('INF')
class UFO(UF):
    name = "uninterpreted floats in a linear order with NaN and infinities"
    def __init__(s, ex):
        UF.__init__(s, ex); ex.fact(INF > z3.RealVal(str(2 ** 1030)), 'float-order')
    def nan(s, x): w = s.wd(x); return s.fn('isnan%d' % w, s.S[w], z3.BoolSort())(x)
    def o(s, x): w = s.wd(x); s.touch(x); return s.fn('ord%d' % w, s.S[w], z3.RealSort())(x)
    def wd(s, x): return {'F32': 32, 'F64': 64, 'F80': 128}[x.sort().name()]
    def touch(s, x):
        if x.get_id() in s.seen: return
        s.seen.add(x.get_id()); s.ex.keep.append(x); c = s.cval(x); n, o = s.nan(x), s.o(x)
        if c is not None:
            if c != c: s.ex.fact(n, 'float-order')
            elif c in (float('inf'), float('-inf')): s.ex.fact(z3.And(z3.Not(n), o == (INF if c > 0 else -INF)), 'float-order')
            else: s.ex.fact(z3.And(z3.Not(n), o == z3.RealVal(str(Fraction(c)))), 'float-order')
        else: s.ex.fact(z3.And(o <= INF, o >= -INF), 'float-order')
    def fin(s, x): return z3.And(z3.Not(s.nan(x)), s.o(x) < INF, s.o(x) > -INF)
    def num(s, x): return z3.Not(s.nan(x))
    def base(s, f, *a): return getattr(UF, f)(s, *a)
    def absr(s, x): return z3.If(x >= 0, x, -x)
    def isop(s, r, n): return r.decl().kind() == z3.Z3_OP_UNINTERPRETED and r.decl().name().startswith(n)
    def swapped(s, r, a, b): return r == r.decl()(r.arg(1), r.arg(0))
    def scaled(s, z, q, c): return z == int(c)*q
    def toreal(s, i): return z3.ToReal(i)
    def ax(s, r, *cs):
        if ('ax', r.get_id()) in s.seen: return r
        s.seen.add(('ax', r.get_id())); s.ex.keep.append(r); s.ex.fact(z3.And(*[c() if callable(c) else c for c in cs]), 'float-order'); return r
    def _lt(s, a, b, w): return z3.And(s.num(a), s.num(b), s.o(a) < s.o(b))
    def _le(s, a, b, w): return z3.And(s.num(a), s.num(b), s.o(a) <= s.o(b))
    def _eq(s, a, b, w): return z3.And(s.num(a), s.num(b), s.o(a) == s.o(b))
    def cmp(s, pr, a, b, w):
        if pr in ('ord', 'uno'):
            t = z3.Or(s.nan(a), s.nan(b)); return t if pr == 'uno' else z3.Not(t)
        return UF.cmp(s, pr, a, b, w)
    def neg(s, a, w):
        r = s.base('neg', a, w); return s.ax(r, s.nan(r) == s.nan(a), z3.Implies(s.num(a), s.o(r) == -s.o(a))) if s.cval(r) is None else r
    def abs(s, a, w):
        r = s.base('abs', a, w)
        if s.cval(r) is not None: return r
        s.ax(r); 
        if ('ab', r.get_id(), a.get_id()) not in s.seen: s.seen.add(('ab', r.get_id(), a.get_id())); s.ex.keep.append(a); s.ex.fact(z3.And(s.nan(r) == s.nan(a), z3.Implies(s.num(a), s.o(r) == s.absr(s.o(a)))), 'float-order')
        return r
    def ext(s, a, w1, w2):
        r = s.base('ext', a, w1, w2); return s.ax(r, s.nan(r) == s.nan(a), z3.Implies(s.num(a), s.o(r) == s.o(a))) if s.cval(r) is None else r
    def trunc(s, a, w1, w2):
        r = s.base('trunc', a, w1, w2)
        if s.cval(r) is not None or not s.isop(r, 'fptrunc'): return r
        A, B = s.o(a), s.o(r); return s.ax(r, s.nan(r) == s.nan(a), z3.Implies(A >= 0, B >= 0), z3.Implies(A <= 0, B <= 0), z3.Implies(A == INF, B == INF), z3.Implies(A == -INF, B == -INF))
    def bin(s, op, a, b, w):
        r = s.base('bin', op, a, b, w)
        if s.cval(r) is not None or w not in (32, 64) or ('ax', r.get_id()) in s.seen: return r
        s.touch(a); s.touch(b); x, y, z, nr = s.o(a), s.o(b), s.o(r), s.num(r); fs = [z3.Implies(nr, z3.And(s.num(a), s.num(b)))]; both = z3.And(s.num(a), s.num(b)); ok = lambda p, q: z3.Implies(z3.And(nr, p), q)
        if op in ('fadd', 'fmul') and not a.eq(b): fs.append(s.swapped(r, a, b))
        if op == 'fadd':
            fs += [z3.Implies(z3.Or(z3.And(s.fin(a), s.num(b)), z3.And(s.num(a), s.fin(b))), nr), ok(z3.And(x >= 0, y >= 0), z3.And(z >= x, z >= y)), ok(z3.And(x <= 0, y <= 0), z3.And(z <= x, z <= y))]
            for p in (x, y): fs += [ok(p == INF, z == INF), ok(p == -INF, z == -INF)]
        elif op == 'fsub':
            fs += [z3.Implies(z3.Or(z3.And(s.fin(a), s.num(b)), z3.And(s.num(a), s.fin(b))), nr), ok(x > y, z > 0), ok(x < y, z < 0), ok(x == y, z == 0), ok(x == INF, z == INF), ok(x == -INF, z == -INF), ok(y == INF, z == -INF), ok(y == -INF, z == INF)]
        elif op == 'fmul':
            fs += [z3.Implies(z3.And(s.fin(a), s.fin(b)), nr), ok(z3.And(x >= 0, y >= 0), z >= 0), ok(z3.And(x >= 0, y >= 0, y <= 1), z <= x), ok(z3.And(y >= 0, x >= 0, x <= 1), z <= y), ok(z3.Or(x == 0, y == 0), z == 0)]
            for p, q in ((a, y), (b, x)):
                c = s.cval(p)
                if c == 0.5: fs += s.half(q, z)
        elif op == 'fdiv':
            fs += [z3.Implies(z3.And(s.fin(a), s.num(b), y != 0), nr), ok(z3.And(x >= 0, y > 0), z >= 0), ok(z3.And(x <= 0, y > 0), z <= 0), ok(z3.Or(x == INF, x == -INF), z3.Or(z == INF, z == -INF)),
                   ok(z3.And(x >= 0, b == s.const(0, w)), z == INF), ok(z3.And(x == 0), z == 0)]
            c = s.cval(b)
            if c == 2.0: fs += s.half(x, z) + [ok(x >= 0, z <= x)]
        return s.ax(r, *fs)
    def half(s, x, z): return [z3.Implies(x < 65536, z < 32768), z3.Implies(x > -65536, z > -32768)]
    def fromint(s, i, w, signed=True):
        r = s.base('fromint', i, w, signed)
        if isc(i) or ('ax', r.get_id()) in s.seen: return r
        return s.ax(r, s.fin(r), z3.Implies(z3.And(i >= -(1 << 24), i <= 1 << 24), s.o(r) == s.toreal(i)), z3.Implies(i >= 0, s.o(r) >= 0), z3.Implies(i <= 0, s.o(r) <= 0))
    def toint(s, a, w):
        r = s.base('toint', a, w)
        if isc(r) or not s.isop(r, 'ftoi'): return r
        x = s.o(a); return s.ax(r, z3.Implies(z3.And(s.num(a), x > -32768, x < 32768), z3.And(r >= -32767, r <= 32767)), z3.Implies(z3.And(s.num(a), x >= 0, x < 2 ** 31), r >= 0), z3.Implies(z3.And(s.num(a), x <= 0, x > -2 ** 31), r <= 0))
    def isfun(s, x, name): return z3.is_app(x) and x.decl().name().startswith(name)
class UFM(UFO):
    """ordered floats with magnitudes: s.mg[x] = k says |x| <= 2^k, carried through the operations (rounding to nearest keeps a bound that is a power of two)"""
    def __init__(s, ex): UFO.__init__(s, ex); s.mg = {}
    def bound(s, x, k): s.mg[x.get_id()] = k; s.ex.keep.append(x); s.ex.fact(z3.And(s.fin(x), s.o(x) <= z3.RealVal(2) ** k if k >= 0 else True, s.o(x) >= -(z3.RealVal(2) ** k) if k >= 0 else True), 'magnitude'); return x
    def mag(s, x):
        if x.get_id() in s.mg: return s.mg[x.get_id()]
        c = s.cval(x)
        if c is not None:
            k = 0
            while c == c and abs(c) > 2.0 ** k and k < 1000: k += 1
            return k
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            a, b = s.mag(x.arg(1)), s.mag(x.arg(2)); return None if a is None or b is None else max(a, b)
        if z3.is_app(x) and x.num_args() == 1 and x.decl().name().startswith(('fneg', 'fabs', 'fpext')): return s.mag(x.arg(0))
        return None
    def lim(s, x, k, w):
        """x is finite with |x| <= 2^k"""
        if k >= (127 if w == 32 else 1000): return
        if x.get_id() in s.mg: return
        s.mg[x.get_id()] = k; s.ex.keep.append(x); q = z3.RealVal(2 ** k) if k >= 0 else z3.RealVal('1/%d' % 2 ** -k); s.ex.fact(z3.And(s.num(x), s.o(x) <= q, s.o(x) >= -q), 'magnitude')
    def bin(s, op, a, b, w):
        r = UFO.bin(s, op, a, b, w)
        if s.cval(r) is not None: return r
        p, q = s.mag(a), s.mag(b)
        if op in ('fadd', 'fsub', 'fmul') and p is not None and q is not None: s.lim(r, p + q if op == 'fmul' else max(p, q) + 1, w)
        if ('more', r.get_id()) not in s.seen: s.seen.add(('more', r.get_id())); s.ex.fact(z3.And(*s.more(op, a, b, r, w)), 'float-order')
        return r
    def more(s, op, a, b, r, w):
        x, y, z, nr = s.o(a), s.o(b), s.o(r), s.num(r); c0 = s.const(0, w); I = z3.Implies
        if op == 'fadd': return [I(z3.And(nr, y == 0), z == x), I(z3.And(nr, x == 0), z == y), I(z3.And(a == c0, b == c0), r == c0)]
        if op == 'fsub': return [I(z3.And(a == c0, s.num(b), y == 0), r == c0)]
        if op == 'fdiv': return [I(z3.And(s.fin(a), s.fin(b), y != 0, x == y), z3.And(nr, z == 1)), I(z3.And(s.fin(a), s.num(b), x != 0), nr), I(z3.And(s.num(a), s.fin(b), x != 0), nr)]
        fs = [I(z3.And(nr, x <= 0, y <= 0), z >= 0), I(z3.And(nr, x >= 0, y <= 0), z <= 0), I(z3.And(nr, x <= 0, y >= 0), z <= 0)]
        if a.eq(b): fs.append(I(z3.And(nr, z == 0), r == c0))
        for p, q in ((a, y), (b, x)):
            c = s.cval(p)
            if c in (2.0, -2.0): fs.append(I(s.fin(r), s.scaled(z, q, c)))
        return fs
    def abs(s, a, w):
        r = UFO.abs(s, a, w)
        if s.cval(r) is None and ('abs0', r.get_id()) not in s.seen: s.seen.add(('abs0', r.get_id())); s.ex.fact(z3.Implies(z3.And(s.num(r), s.o(r) == 0), r == s.const(0, w)), 'float-order')
        k = s.mag(a)
        if s.cval(r) is None and k is not None: s.lim(r, k, w)
        return r
    def un(s, f, a, w):
        r = s.base('un', f, a, w)
        if f == 'sqrt' and s.cval(r) is None and ('sqrt', r.get_id()) not in s.seen:
            s.seen.add(('sqrt', r.get_id())); x = s.o(a); s.ex.keep.append(r); s.ex.fact(z3.And(*s.sqrt_ax(a, r, w)), 'float-order'); k = s.mag(a)
            if k is not None: s.lim(r, (max(k, 0) + 1)//2, w)
        return r
    def sqrt_ax(s, a, r, w): x = s.o(a); return [z3.Implies(z3.And(s.num(a), x >= 0), z3.And(s.num(r), s.o(r) >= 0)), z3.Implies(z3.And(s.num(a), x > 0), s.o(r) > 0), z3.Implies(a == s.const(0, w), r == a)]
def same_value(fp, ex, a, b):
    """two floats of the same non-zero value are the same float"""
    ex.fact(z3.Implies(z3.And(fp.num(a), fp.num(b), fp.o(a) == fp.o(b), fp.o(a) != 0), a == b), 'float-order')
