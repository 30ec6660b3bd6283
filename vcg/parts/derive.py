"""Tolerance derivation over the reals (rounding ignored): sign-keeping kernels by their contracts, the derivations against those contracts.
ghost perturbations: du, dv are arbitrary changes of the vertex whose tolerance is derived."""
import os, re, time, random, z3
from fractions import Fraction
from .. import ir
from ..sym import *
from ..exe import Ex
from ..poly import RealP
from .kernels import cell, buf, vcell
TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tu', 'derive.cpp')
SN = {'f': 'float', 'd': 'double'}
R = z3.Real
def Abs(x): return z3.If(x >= 0, x, -x)
def keeps(old, new): return z3.And(z3.Implies(old > 0, new > 0), z3.Implies(old < 0, new < 0))
def reals(*n): return [R(x) for x in n]
class X(Ex):
    def __init__(s, t=60000): Ex.__init__(s, fp=RealD, ints=IntMath, timeout=t)
    def ask(s, asr, timeout=None, want_model=False, seed=None):
        # linear arithmetic over the monomials first (unsatisfiable there => unsatisfiable)
        r = Ex.ask(s, linearise(asr), 5000)
        if r == z3.unsat: return (r, None) if want_model else r
        return Ex.ask(s, asr, timeout, want_model)
def linearise(asr):
    mono = {}; done = {}; keep = []
    def go(e):
        k = e.get_id()
        if k in done: return done[k]
        if z3.is_app(e) and e.num_args():
            ch = [go(c) for c in e.children()]
            if e.decl().kind() == z3.Z3_OP_MUL and z3.is_real(e):
                c = [x for x in ch if not z3.is_rational_value(x)]; n = [x for x in ch if z3.is_rational_value(x)]
                if len(c) > 1:
                    key = tuple(sorted(x.get_id() for x in c)); keep.extend(c)
                    if key not in mono: mono[key] = z3.Real('mono!%d' % len(mono))
                    r = mono[key]
                    for x in n: r = x * r
                else: r = e.decl()(*ch)
            elif e.decl().kind() == z3.Z3_OP_POWER:
                key = (ch[0].get_id(), 'pow', ch[1].get_id()); keep.extend(ch)
                if key not in mono: mono[key] = z3.Real('mono!%d' % len(mono))
                r = mono[key]
            else: r = e.decl()(*ch)
        else: r = e
        done[k] = r; keep.append(e); keep.append(r); return r
    out = []
    for a in asr:
        s = z3.simplify(ZB(a), som=True, mul_to_power=False, elim_ite=False, hoist_ite=False) if not isinstance(a, bool) else ZB(a)
        out.append(go(s))
    return out
def inside(M): return z3.Or(z3.And(*[m >= 0 for m in M]), z3.And(*[m <= 0 for m in M]))
def stdet(u, v): return [u[2]*v[0] - u[0]*v[2], u[1]*v[2] - u[2]*v[1], u[0]*v[1] - u[1]*v[0]]
def run(rep, task, S='d'):
    rep.assume("floating-point rounding ignored in the tolerance derivations (real arithmetic); the bounded check of C06 runs them in machine arithmetic")
    globals()['t_' + task](rep, S)
# ---- sign-keeping kernels
def t_abs(rep, S):
    m = ir.extract(TU); n = 'max_eb_to_keep_sign_2d_online_abs<%s>' % SN[S]; rep.fn(n)
    ex = X(); A, B, C, e1, e2 = reals(*'A B C e1 e2'.split()); s2, eb = ex.call_func(m.func('k_keepabs_' + S), m, [A, B, C], State(), ())
    small = z3.And(Abs(e1) < eb, Abs(e2) < eb)
    ex.oblige('|e1|,|e2| < result => A*e1 + B*e2 + C keeps the sign of C', z3.Implies(z3.And(C != 0, small), keeps(C, A*e1 + B*e2 + C)), s2.pc, ('C06', 'C04')); rep.from_ex(ex, n)
    m = ir.extract(TU, noinline=('max_eb_to_keep_sign_2d_online_abs',)); n = 'derive_cp_eb_for_positions_online_abs<%s>' % SN[S]; rep.fn(n)
    ex = X(); u = reals('u0', 'u1', 'u2'); v = reals('v0', 'v1', 'v2'); du, dv = reals('du', 'dv')
    def keep(ex, fr, st, ins, A, dem):
        r = ex.fp.fresh('keep', 64); a, b, c = A; small = z3.And(Abs(du) < r, Abs(dv) < r)
        ex.fact(z3.Implies(z3.And(c != 0, small), keeps(c, a*du + b*dv + c)), 'contract of max_eb_to_keep_sign_2d_online_abs'); return r
    ex.contracts.append((re.compile('max_eb_to_keep_sign_2d_online_abs'), keep))
    s2, eb = ex.call_func(m.func('k_dabs_' + S), m, u + v, State(), ()); M = stdet(u, v); N = stdet([u[0], u[1], u[2] + du], [v[0], v[1], v[2] + dv])
    P = ('C06', 'C04', 'C05')
    ex.oblige('a cell holding a critical point gets tolerance 0', z3.Implies(z3.And(inside(M)), eb == 0), s2.pc, P)
    ex.oblige('a degenerate cell gets tolerance 0', z3.Implies(M[0] + M[1] + M[2] == 0, eb == 0), s2.pc, P)
    ex.oblige('|du|,|dv| < tolerance => no critical point appears', z3.Implies(z3.And(Abs(du) < eb, Abs(dv) < eb), z3.Not(inside(N))), s2.pc, P)
    rep.from_ex(ex, n)
def t_rel(rep, S):
    m = ir.extract(TU); n = 'max_eb_to_keep_sign_2d_online<%s>' % SN[S]; rep.fn(n)
    ex = X(); A, B, C, e1, e2 = reals(*'A B C e1 e2'.split()); s2, eb = ex.call_func(m.func('k_keep_' + S), m, [A, B, C], State(), ()); T = A + B + C
    ex.oblige('|e1|,|e2| < result => A*(1+e1) + B*(1+e2) + C keeps the sign of A+B+C', z3.Implies(z3.And(Abs(e1) < eb, Abs(e2) < eb), z3.And(T != 0, keeps(T, A*e1 + B*e2 + T))), s2.pc, ('C06', 'C04')); rep.from_ex(ex, n)
    m = ir.extract(TU, noinline=('max_eb_to_keep_sign_2d_online', 'max_eb_to_keep_type_online')); n = 'derive_cp_eb_for_positions_online<%s>' % SN[S]; rep.fn(n, 'max_eb_to_keep_position_online<%s>' % SN[S])
    ex = X(); u = reals('u0', 'u1', 'u2'); v = reals('v0', 'v1', 'v2'); du, dv = reals('du', 'dv')
    ex.contracts.append((re.compile('max_eb_to_keep_sign_2d_online'), keeprel(du, dv)))
    kinds = []
    def kind(ex, fr, st, ins, A, dem): r = ex.fp.fresh('type', 64); kinds.append((A, r)); return r
    ex.contracts.append((re.compile('max_eb_to_keep_type_online'), kind))
    cb = Obj('c', 'arr', None, ('f', 32 if S == 'f' else 64)); cb.init = z3.Const('c', ex.arrsort(cb.ety))
    s2, eb = ex.call_func(m.func('k_drel_' + S), m, u + v + [Ptr(cb, 0, 4 if S == 'f' else 8)], State(), ()); M = stdet(u, v); N = stdet([u[0], u[1], u[2]*(1 + du)], [v[0], v[1], v[2]*(1 + dv)])
    small = z3.And(Abs(du) < eb, Abs(dv) < eb); P = ('C06', 'C04')
    ex.oblige('a degenerate cell gets tolerance 0', z3.Implies(M[0] + M[1] + M[2] == 0, eb == 0), s2.pc, P)
    ex.oblige('|e1|,|e2| < tolerance => no critical point appears', z3.Implies(z3.And(small, z3.Not(inside(M))), z3.Not(inside(N))), s2.pc, P)
    ex.oblige('|e1|,|e2| < tolerance => a cell with a critical point keeps its orientation', z3.Implies(z3.And(small, inside(M)), keeps(M[0] + M[1] + M[2], N[0] + N[1] + N[2])), s2.pc, ('C22',))
    ex.oblige('|e1|,|e2| < tolerance => a critical point does not leave its cell', z3.Implies(z3.And(small, inside(M), M[0] + M[1] + M[2] != 0), z3.And(inside(N), N[0] + N[1] + N[2] != 0)), s2.pc, P)
    for A, _ in kinds: ex.oblige('the kind is kept for the values of this cell', z3.And(*[x == y for x, y in zip(A, u + v)]), s2.pc, ('C22',))
    ok = all(len(A) == 7 and A[6].obj is cb and isc(A[6].idx) and A[6].idx == 0 for A, _ in kinds)
    rep.obl(n + ': the kind is kept for the geometry of this cell', ('C22',), 'proved' if ok and kinds else 'failed', 'syntactic')
    ex.oblige('a cell with a critical point gets at most the tolerance that keeps its kind', z3.Implies(z3.And(inside(M), M[0] + M[1] + M[2] != 0), z3.And(*[eb <= r for _, r in kinds])), s2.pc, ('C22',))
    rep.from_ex(ex, n)
def keeprel(du, dv):
    def keep(ex, fr, st, ins, A, dem):
        r = ex.fp.fresh('keep', 64); a, b, c = A; t = a + b + c
        ex.fact(z3.Implies(z3.And(Abs(du) < r, Abs(dv) < r), z3.And(t != 0, keeps(t, a*du + b*dv + t))), 'contract of max_eb_to_keep_sign_2d_online'); return r
    return keep
# ---- kind of critical point (relative tolerances, one vertex)
# T = trace, D = determinant of the Jacobian, DL = T^2 - 4D; the changed vertex turns T into T + A*du + B*dv and D into D + Dd*du + Ee*dv
class XP(X):
    """proof: linear arithmetic over the monomials of the names; refutation: the names at sampled cells"""
    def __init__(s, base, t=6000): Ex.__init__(s, fp=RealP, ints=IntMath, timeout=t); s.base = base
    def ask(s, asr, timeout=None, want_model=False, seed=None):
        r = Ex.ask(s, linearise(asr), 5000)
        if r == z3.unsat: return (r, None) if want_model else r
        names = list({v.get_id(): v for v in s.fp.poly.keep if z3.is_const(v)}.values()); rnd = random.Random(1); t0 = time.time(); known = {x.get_id() for x in s.base}
        asr = [ZB(a) for a in asr]
        for k in range(600 if seed is None else 0):
            if time.time() - t0 > 25: break
            hi = (1, 2, 3, 8)[k % 4]; val = {x.get_id(): Fraction(rnd.randint(-hi, hi)) for x in s.base}; sub = [(x, z3.RealVal(str(val[x.get_id()]))) for x in s.base]
            for v in names:
                p = s.fp.poly.memo[v.get_id()]
                if v.get_id() in known or any(i not in val for mon in p for i in mon): continue
                x = Fraction(0)
                for mon, c in p.items():
                    for i in mon: c = c*val[i]
                    x += c
                sub.append((v, z3.RealVal(str(x))))
            z = z3.Solver(); z.set('timeout', 300); z.add(*[z3.substitute(a, *sub) for a in asr])
            if z.check() == z3.sat: return (z3.sat, '%s\n%s' % (sub, z.model())) if want_model else z3.sat
        r = Ex.ask(s, asr, timeout); r = r if r == z3.unsat else z3.unknown   # (the names are not tied to the cell there)
        return (r, None) if want_model else r
ab = lambda m, s: z3.And(s >= 0, z3.Or(s == m, s == -m))
# lemmas: proved over fresh reals, then used at the values of the code
LEMMAS = [
    ('|x*p + y*q| <= (|x|+|y|)*e for |p|,|q| <= e', 'x sx y sy p q e', lambda x, sx, y, sy, p, q, e: z3.Implies(z3.And(ab(x, sx), ab(y, sy), Abs(p) <= e, Abs(q) <= e), z3.And(x*p + y*q <= (sx + sy)*e, -(x*p + y*q) <= (sx + sy)*e))),
    ('|y| <= h => y^2 <= h^2', 'y h', lambda y, h: z3.Implies(z3.And(y <= h, -y <= h), y*y <= h*h)),
    ('y^2 >= 0', 'y', lambda y: y*y >= 0),
    ('e < n/x => x*e < n', 'x e q n', lambda x, e, q, n: z3.Implies(z3.And(x > 0, e < q, q*x == n), x*e < n)),
    ('a*e^2 + b*e + c < 0 below the root -2c/(b + sqrt(b^2-4ac))', 'a b c s r e', lambda a, b, c, s, r, e: z3.Implies(z3.And(a >= 0, b >= 0, c < 0, s >= 0, s*s == b*b - 4*a*c, r*(b + s) == -2*c, b + s > 0, e >= 0, e < r), a*e*e + b*e + c < 0)),
    ('the degenerate root', 'a b c s e', lambda a, b, c, s, e: z3.Implies(z3.And(a >= 0, b >= 0, c < 0, s >= 0, s*s == b*b - 4*a*c, b + s <= 0), a*e*e + b*e + c < 0)),
    ('b^2 - 4ac >= 0 for a >= 0, c < 0', 'a b c', lambda a, b, c: z3.Implies(z3.And(a >= 0, c < 0), b*b - 4*a*c >= 0)),
    ('a discriminant that does not depend on the change leaves the trace its sign', 'T A B Dd Ee D p q', lambda T, A, B, Dd, Ee, D, p, q: z3.Implies(z3.And(2*A*T - 4*Dd == 0, 2*B*T - 4*Ee == 0, T*T - 4*D > 0, D > 0, D + Dd*p + Ee*q > 0), T*(T + A*p + B*q) > 0)),
    ('x*y > 0 means equal signs', 'x y', lambda x, y: z3.Implies(x*y > 0, z3.And(x != 0, z3.Implies(x > 0, y > 0), z3.Implies(x < 0, y < 0)))),
    ('m*w < 0 and w2 has the sign of w => m*w2 < 0', 'm w w2', lambda m, w, w2: z3.Implies(z3.And(m*w < 0, w != 0, keeps(w, w2)), m*w2 < 0))]
def t_type(rep, S):
    P = ('C22',); m = ir.extract(TU, noinline=('max_eb_to_keep_sign_2d_online',)); n = 'max_eb_to_keep_type_online<%s>' % SN[S]; rep.fn(n)
    for nm, vs, f in LEMMAS:
        z = z3.Solver(); z.set('timeout', 60000); z.add(z3.Not(f(*reals(*['l_' + k for k in vs.split()])))); r = z.check()
        rep.obl('lemma: ' + nm, P, 'proved' if r == z3.unsat else 'unknown', 'z3 %s' % r)
    dot, square, nonneg, under, root, flat, disc, center, signs, saddle = [f for _, _, f in LEMMAS]
    ex = XP(reals('u0', 'u1', 'u2', 'v0', 'v1', 'v2', 'c0', 'c1', 'c2', 'c3')); fp = ex.fp; u = reals('u0', 'u1', 'u2'); v = reals('v0', 'v1', 'v2'); c = reals('c0', 'c1', 'c2', 'c3'); du, dv = reals('du', 'dv'); po = fp.poly
    mm = c[0]*c[3] - c[1]*c[2]
    def tr(u, v): return c[0]*(u[0] - u[2]) + c[1]*(u[1] - u[2]) + c[2]*(v[0] - v[2]) + c[3]*(v[1] - v[2])
    def det(u, v): return mm*sum(stdet(u, v))
    pA, pB, pWa, pWb, pT, pW = -(c[0] + c[1])*u[2], -(c[2] + c[3])*v[2], u[2]*v[0] - u[2]*v[1], u[1]*v[2] - u[0]*v[2], tr(u, v), sum(stdet(u, v))
    A, B, Mm, Wa, Wb, W, T, Dd, Ee, D = [fp.name(k, t) for k, t in (('A', pA), ('B', pB), ('M', mm), ('Wa', pWa), ('Wb', pWb), ('W', pW), ('T', pT), ('Dd', mm*pWa), ('Ee', mm*pWb), ('D', mm*pW))]
    DL = fp.name('DL', pT*pT - 4*mm*pW); X1 = fp.name('X1', 2*pA*pT - 4*mm*pWa); X2 = fp.name('X2', 2*pB*pT - 4*mm*pWb)
    def keep(ex, fr, st, ins, a, dem):
        r = ex.fp.fresh('keep', 64); t = ex.fp.bin('fadd', ex.fp.bin('fadd', a[0], a[1], 64), a[2], 64)
        ex.fact(z3.Implies(z3.And(Abs(du) < r, Abs(dv) < r), z3.And(t != 0, keeps(t, a[0]*du + a[1]*dv + t))), 'contract of max_eb_to_keep_sign_2d_online'); return r
    ex.contracts.append((re.compile('max_eb_to_keep_sign_2d_online'), keep))
    st = State(); w = 4 if S == 'f' else 8; ty = ('f', 8*w); cb = Obj('c', 'cells', 4*w); st.mem[cb] = Mem('cells', {i*w: (ty, c[i]) for i in range(4)})
    s2, eb = ex.call_func(m.func('k_type_' + S), m, u + v + [Ptr(cb, 0, w)], st, ())
    same = lambda x, y: po.key(po(x)) == po.key(po(y)); u2 = [u[0], u[1], u[2]*(1 + du)]; v2 = [v[0], v[1], v[2]*(1 + dv)]
    rep.obl(n + ': trace and determinant are linear in the change', P, 'proved' if same(tr(u2, v2), T + A*du + B*dv) and same(det(u2, v2), D + Dd*du + Ee*dv) else 'failed', 'polynomial normal form')
    T2, D2, W2 = T + A*du + B*dv, D + Dd*du + Ee*dv, W + Wa*du + Wb*dv; DL2 = T2*T2 - 4*D2
    defs = [DL == T*T - 4*D, X1 == 2*A*T - 4*Dd, X2 == 2*B*T - 4*Ee, X1*du == (2*A*T - 4*Dd)*du, X2*dv == (2*B*T - 4*Ee)*dv, D == Mm*W, D2 == Mm*W2]
    f = lambda x: fp.abs(x, 64); fA, fB, S1, S2 = f(A), f(B), f(X1), f(X2); b = S1 + S2; a = (fA + fB)*(fA + fB); e = z3.Real('e'); qs = list(fp.quots.values()); roots = [r for k, r in fp.roots.items() if k[0] == 'sqrt']
    defs += [e >= 0, z3.Or(e == du, e == -du, e == dv, e == -dv), Abs(du) <= e, Abs(dv) <= e, nonneg(fA + fB)]
    small = z3.And(Abs(du) < eb, Abs(dv) < eb); kept = z3.And(D > 0, D2 > 0)   # part derive:rel: the orientation is kept
    def goal(nm, g, *L): ex.oblige(nm, g, s2.pc, P, extra=defs + list(L))
    goal('a positive discriminant stays positive', z3.Implies(z3.And(small, D > 0, DL > 0), DL2 > 0), nonneg(A*du + B*dv), dot(X1, S1, X2, S2, du, dv, e), z3.Real('be') == b*e, z3.Implies(b == 0, z3.Real('be') == 0), *[under(d, e, q, nn) for q, nn, d in qs])
    goal('a negative discriminant stays negative', z3.Implies(z3.And(small, D > 0, DL < 0), DL2 < 0), dot(A, fA, B, fB, du, dv, e), square(A*du + B*dv, (fA + fB)*e), dot(X1, S1, X2, S2, du, dv, e), disc(a, b, DL),
        *([root(a, b, DL, s_, q, e) for q, nn, d in qs for s_, _ in roots] + [flat(a, b, DL, s_, e) for s_, _ in roots]))
    goal('a zero discriminant gets tolerance 0', z3.Implies(z3.And(D > 0, DL == 0), eb <= 0))
    goal('the trace keeps its sign', z3.Implies(z3.And(small, kept), z3.And(T != 0, keeps(T, T2))), center(T, A, B, Dd, Ee, D, du, dv), signs(T, T2))
    goal('a saddle stays a saddle', z3.Implies(z3.And(small, D < 0), D2 < 0), saddle(Mm, W, W2))
    rep.from_ex(ex, n)
def t_adj(rep, S):
    """the matrix that turns differences of corner values into the Jacobian"""
    P = ('C22',); m = ir.extract(TU); n = 'get_adjugate_matrix_for_position<%s>' % SN[S]; rep.fn(n); ex = X(); w = 4 if S == 'f' else 8
    x = reals('x0', 'x1', 'x2'); y = reals('y0', 'y1', 'y2'); ux, uy, vx, vy = reals('ux', 'uy', 'vx', 'vy'); st = State(); cb = Obj('c', 'cells', 4*w); st.mem[cb] = Mem('cells', {})
    s2, _ = ex.call_func(m.func('k_adj_' + S), m, x + y + [Ptr(cb, 0, w)], st, ()); c = [ex.load(s2, Ptr(cb, i, w), ('f', 8*w)) for i in range(4)]
    a, b = (x[0] - x[2], y[0] - y[2]), (x[1] - x[2], y[1] - y[2]); dt = a[0]*b[1] - b[0]*a[1]; nd = dt != 0
    for nm, (p, q), (g, h) in (('0', (c[0], c[1]), (1, 0)), ('1', (c[2], c[3]), (0, 1))):
        ex.oblige('row %s of the matrix' % nm, z3.Implies(nd, z3.And(p*a[0] + q*b[0] == g, p*a[1] + q*b[1] == h)), s2.pc, P)
    ex.oblige('its determinant', z3.Implies(nd, (c[0]*c[3] - c[1]*c[2])*dt == 1), s2.pc, P)
    rep.from_ex(ex, n)
