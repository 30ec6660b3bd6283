"""Polynomials over named values: real arithmetic in which a result that is the same polynomial as a named one is that name.
Equality of polynomials is decided by normal form, so it does not matter how the program associates or distributes."""
from fractions import Fraction
import z3
from .sym import *
from .sym import RealD
class Poly:
    """poly(t): normal form of a real term {monomial (sorted ids): coefficient}; atoms = anything that is not + - * or a numeral"""
    def __init__(s): s.atoms = {}; s.memo = {}; s.keep = []
    def add(s, p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            c = r.get(m, 0) + k*c
            if c: r[m] = c
            else: r.pop(m, None)
        return r
    def mul(s, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = tuple(sorted(m + n)); v = r.get(k, 0) + c*d
                if v: r[k] = v
                else: r.pop(k, None)
        return r
    def atom(s, t): s.atoms[t.get_id()] = t; return {(t.get_id(),): Fraction(1)}
    def define(s, v, p): s.memo[v.get_id()] = p; s.keep.append(v)
    def __call__(s, t):
        if isinstance(t, (int, Fraction)): return {(): Fraction(t)} if t else {}
        k = t.get_id()
        if k in s.memo: return s.memo[k]
        if z3.is_rational_value(t): v = t.as_fraction(); r = {(): v} if v else {}
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD:
            r = {}
            for c in t.children(): r = s.add(r, s(c))
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SUB:
            ch = t.children(); r = s(ch[0])
            for c in ch[1:]: r = s.add(r, s(c), -1)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS: r = s.add({}, s(t.arg(0)), -1)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in t.children(): r = s.mul(r, s(c))
        else: r = s.atom(t)
        s.memo[k] = r; s.keep.append(t); return r
    @staticmethod
    def key(p): return frozenset(p.items())
class RealP(RealD):
    """real arithmetic; results that equal a named polynomial (or its negation) are that name"""
    def __init__(s, ex): RealD.__init__(s, ex); s.poly = Poly(); s.named = {}; s.absn = {}
    def name(s, nm, t):
        """nm: a fresh variable standing for the polynomial t"""
        v = z3.Real(nm); p = s.poly(t); s.poly.define(v, p); s.named[Poly.key(p)] = v; s.named.setdefault(Poly.key(s.poly.add({}, p, -1)), -v); return v
    def hit(s, t):
        if not z3.is_expr(t) or z3.is_rational_value(t): return t
        p = s.poly(t)
        if not p: return z3.RealVal(0)
        return s.named.get(Poly.key(p), t)
    def bin(s, op, a, b, w):
        if op == 'fdiv':
            key = ('div', Poly.key(s.poly(a)), Poly.key(s.poly(b)))
            if key in s.roots: return s.roots[key][0]
            q = s.fresh('quot', w); s.ex.fact(z3.Implies(b != 0, q*b == a), 'quotient'); s.roots[key] = (q, a, b); s.quots[q.get_id()] = (q, a, b); return q
        return s.hit(RealD.bin(s, op, a, b, w))
    def neg(s, a, w): return s.hit(-a)
    def abs(s, a, w):
        p = s.poly(a)
        for k in (Poly.key(p), Poly.key(s.poly.add({}, p, -1))):
            if k in s.absn: return s.absn[k]
        r = s.fresh('abs', w); s.ex.fact(z3.And(r >= 0, z3.Or(r == a, r == -a)), 'absolute value'); s.absn[Poly.key(p)] = r; s.keepabs = getattr(s, 'keepabs', []) + [(r, a)]; return r
    def un(s, name, a, w):
        if name != 'sqrt': return RealD.un(s, name, a, w)
        key = ('sqrt', Poly.key(s.poly(a)))
        if key in s.roots: return s.roots[key][0]
        r = s.fresh(name, w); s.ex.fact(z3.Implies(a >= 0, z3.And(r >= 0, r*r == a)), 'sqrt'); s.roots[key] = (r, a); return r
