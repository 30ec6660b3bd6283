"""The executor: symbolic execution of SSA functions with merging, loop cutting and obligation emission."""
import z3, re, time
from . import ir
from .ir import tsize, foff, ExtractError
from .sym import *

MAXUNROLL = 40
class LoopRec:
    def __init__(s): s.children = []; s.log = []

class Ex:
    def __init__(s, fp=UF, ints=IntMath, timeout=20000):
        s.cnt = {}; s.facts = []; s.keep = []; s.byteconst = set(); s.fp = fp(s); s.ints = ints(s); s.timeout = timeout
        s.obls = []; s.quiet = 0; s.contracts = []; s.cache = {}; s.logs = [[]]; s.recs = [[]]; s.dbounds = {}; s.summ = {}; s.loopdepth = 0
        s.assumed = {}; s.under = {}; s.hooks = {}; s.ctx = []; s.allocs = []; s.tokens = []; s.check_bounds = False; s.modcache = {}; s.solver_secs = 0.0; s.nq = 0
        s.unmodelled = set(); s.mono = False; s.views = False; s.match = None; s.fresh_in = []; s.calls = []; s.lockinfo = None; s.deadline = None; s.unroll_all = 0; s.only = None; s.z3first = None; s.inv = []; s.dem = {}; s.check_vec = False
    def demname(s, m):
        if m not in s.dem: s.dem[m] = ir.demangle([m.lstrip('@')])[0]
        return s.dem[m]
    # ---------------------------------------------------------- facts, names, proving
    def fresh_name(s, nm):
        nm = re.sub(r'[^\w.]', '_', str(nm)); k = s.cnt.get(nm, 0); s.cnt[nm] = k + 1; n = "%s!%d" % (nm, k)
        for f in s.fresh_in: f.add(n)
        return n
    def fact(s, f, kind):
        if f is True: return
        s.facts.append((ZB(f), kind))
    def isbyte(s, t): return False
    def assume_nonneg_zext(s, a): return True
    def snapshot(s): return (len(s.facts), set(getattr(s.fp, 'seen', ())), dict(s.summ), len(s.obls), len(s.calls))
    def restore(s, sn):
        del s.facts[sn[0]:]; s.summ = sn[2]; del s.obls[sn[3]:]; del s.calls[sn[4]:]
        if hasattr(s.fp, 'seen'): s.fp.seen = sn[1]
    def relevant(s, seeds):
        """facts connected to the query through shared symbols (all of them when few)"""
        return [f for f, k in s.facts]
    def ask(s, assertions, timeout=None, want_model=False, seed=None):
        sv = z3.Solver(); sv.set('timeout', int(timeout or s.timeout))
        if seed: sv.set('smt.random_seed', seed)
        for a in assertions: sv.add(ZB(a))
        t = time.time(); r = sv.check(); s.solver_secs += time.time() - t; s.nq += 1
        if want_model and r == z3.sat: return r, sv.model()
        return (r, None) if want_model else r
    def holds(s, goal, pc=(), timeout=None, extra=()):
        if goal is True: return True
        if goal is False and not pc: return False
        return s.ask([f for f, _ in s.facts] + list(s.ctx) + list(extra) + list(pc) + [bnot(goal)], timeout) == z3.unsat
    def feasible(s, pc, timeout=2000, extra=()):
        if any(l is False for l in pc): return False
        return s.ask([f for f, _ in s.facts] + list(s.ctx) + list(extra) + list(pc), timeout) != z3.unsat
    def oblige(s, name, goal, pc=(), props=(), extra=(), timeout=None):
        if s.quiet or (s.only is not None and name not in s.only): return True
        t = time.time()
        if goal is True: o = Obl(name, props, True, 'syntactic', 0.0); s.obls.append(o); return True
        asr = [f for f, _ in s.facts] + list(s.ctx) + list(extra) + list(pc) + [bnot(goal)]
        lim = s.z3first or timeout or s.timeout; im = isinstance(s.ints, IntMath)
        r, m = s.ask(asr, min(lim, 6000) if im else lim, True); how = 'z3 ' + str(r); ok = r == z3.unsat
        if r == z3.unknown and im:   # fewer premises: unsatisfiable without them, unsatisfiable with them
            core = list(pc) + [bnot(goal)] + list(extra); fs = [f for f, _ in s.facts] + [x for x in s.ctx if x is not None]; vs = set()
            for x in core: vs |= freevars(ZB(x))
            for depth in range(3):
                pick = [f for f in fs if freevars(ZB(f)) <= vs] if depth < 2 else [f for f in fs if freevars(ZB(f)) & vs]
                for seed in (0, 7, 13):
                    if ok: break
                    ok = s.ask(pick + core, 4000, seed=seed) == z3.unsat
                if ok: how += '; z3 unsat from %d of %d premises' % (len(pick), len(fs)); break
                for f in pick: vs |= freevars(ZB(f))
                for f in fs:
                    g = freevars(ZB(f))
                    if depth == 0 and g & vs and len(g - vs) <= 2: vs |= g
        if r == z3.unknown and not ok and im and lim > 6000: r, m = s.ask(asr, lim, True); how += '; z3 ' + str(r); ok = r == z3.unsat
        if r == z3.unknown and not ok:
            r2 = cvc5_check(asr, (timeout or s.timeout)); how += '; cvc5 ' + r2; ok = r2 == 'unsat'
        o = Obl(name, props, ok, how, time.time() - t, str(m)[:4000] if m is not None else None); s.obls.append(o); return ok
    # ---------------------------------------------------------- values
    def const(s, v, ty, fr=None):
        k = v[0]
        if k == 'loc':
            if v[1] not in fr.env: raise Unsupported("value %s has no definition" % v[1])
            return fr.env[v[1]]
        if k == 'ic':
            if ty == ('i', 1): return bool(v[1])
            return v[1]
        if k == 'fc': return s.fp.const(v[1], v[2])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'glob': return s.globptr(v[1], fr.mod)
        if k == 'zero':
            if ty[0] == 'i': return 0
            if ty[0] == 'f': return s.fp.const(0, ty[1])
            if ty[0] == 'p': return NULL
            if ty[0] == 's': return Agg([s.const(('zero',), t, fr) for t in ty[1]])
            if ty[0] == 'a': return Agg([s.const(('zero',), ty[2], fr) for _ in range(ty[1])])
        if k == 'agg': return Agg([s.const(e, t, fr) for t, e in v[1]])
        if k == 'cgep':
            p = s.const(v[2], ('p',), fr); return s.gep(p, v[1], [(t, s.const(x, t, fr)) for t, x in v[3]])
        raise Unsupported("constant %r" % (v,))
    def val(s, fr, v, ty):
        if v[0] == 'loc' and v[1] in fr.env:
            r = fr.env[v[1]]
            return r
        return s.const(v, ty, fr)
    def num(s, x, ty, nm='undef'):
        if x is UNDEF: return s.freshval(nm, ty)
        return x
    def freshval(s, nm, ty):
        if ty[0] == 'i': return z3.Bool(s.fresh_name(nm)) if ty[1] == 1 else s.ints.fresh(nm, ty[1])
        if ty[0] == 'f': return s.fp.fresh(nm, ty[1])
        if ty[0] == 's': return Agg([s.freshval(nm, t) for t in ty[1]])
        if ty[0] == 'a': return Agg([s.freshval(nm, ty[2]) for _ in range(ty[1])])
        if ty[0] == 'p': return Ptr(Obj('unknown', 'unknown'), 0, 1)
        raise Unsupported("fresh %r" % (ty,))
    def ite(s, c, a, b):
        if isinstance(c, bool): return a if c else b
        if a is UNDEF: return b
        if b is UNDEF: return a
        if same(a, b): return a
        if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.obj is not None:
                if a.es == b.es: return Ptr(a.obj, s.iite(c, a.idx, b.idx), a.es)
                x, y = a, b
                for e in (a.es, b.es):
                    p, q = s.rescale(a, e), s.rescale(b, e)
                    if p and q: return Ptr(a.obj, s.iite(c, p.idx, q.idx), e)
                return Ptr(a.obj, s.iite(c, a.byteoff(), b.byteoff()), 1)
            if s.holds(c, (), 500): return a
            if s.holds(bnot(c), (), 500): return b
            return PtrIte(c, a, b)
        if isinstance(a, Agg): return Agg([s.ite(c, x, y) for x, y in zip(a.v, b.v)])
        if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, z3.ExprRef) and z3.is_bool(a)):
            if a is True and b is False: return c
            if a is False and b is True: return bnot(c)
            if a is True: return bor(c, b)
            if a is False: return band(bnot(c), b)
            if b is True: return bor(bnot(c), a)
            if b is False: return band(c, a)
            return z3.If(c, a, b)
        if isc(a) or isc(b) or z3.is_int(a) or z3.is_bv(a): return s.iite(c, a, b)
        if a.sort() != b.sort(): raise Unsupported("merge of different sorts")
        return z3.If(c, a, b)
    def tite(s, c, a, b, ty):
        if ty is not None and ty[0] == 'i' and ty[1] > 1 and isc(a) and isc(b) and a != b and not isinstance(c, bool) and isinstance(s.ints, IntBV):
            return z3.If(c, z3.BitVecVal(a, ty[1]), z3.BitVecVal(b, ty[1]))
        return s.ite(c, a, b)
    def iite(s, c, a, b):
        """integer ite; common polynomial part pulled out so that counters keep the form init + ite(..)"""
        if same(a, b): return a
        if isinstance(s.ints, IntMath):
            pa = poly(a) if not isc(a) else ({(): (a, ())} if a else {}); pb = poly(b) if not isc(b) else ({(): (b, ())} if b else {})
            com = {m: v for m, v in pa.items() if m != () and m in pb and pb[m][0] == v[0]}
            if com:
                base = unpoly(com); x, y = psub(a, base), psub(b, base)
                if same(x, y): return a
                return padd(base, z3.If(c, ZI(x), ZI(y)))
        return s.ints.ite(c, a, b)
    def rescale(s, p, e):
        if p.es == e: return p
        if isc(p.idx) and p.idx == 0: return Ptr(p.obj, 0, e)
        if z3_bv(p.idx): return None
        i = div_exact(p.byteoff(), e)
        return None if i is None else Ptr(p.obj, i, e)
    def gep(s, p, bt, idx):
        if isinstance(p, PtrIte): return PtrIte(p.c, s.gep(p.a, bt, idx), s.gep(p.b, bt, idx))
        if p is UNDEF: return UNDEF
        if len(idx) == 1:
            e = tsize(bt); q = s.rescale(p, e)
            i = s.sx(idx[0])
            if q is not None: return Ptr(p.obj, s.addi(q.idx, i), e)
            return Ptr(p.obj, s.addi(p.byteoff() if p.es != 1 else p.idx, s.muli(i, e)), 1)
        off, t = s.muli(s.sx(idx[0]), tsize(bt)), bt
        for it in idx[1:]:
            i = s.sx(it)
            if t[0] == 's':
                off = s.addi(off, foff(t, i)); t = t[1][i]
            elif t[0] in ('a', 'vec'): t = t[2]; off = s.addi(off, s.muli(i, tsize(t)))
            else: raise Unsupported("gep")
        es = tsize(t) if t[0] in ('i', 'f', 'p') else 1
        tot = s.addi(s.muli(p.idx, p.es), off)
        d = div_exact(tot, es) if not z3_bv(tot) else None
        return Ptr(p.obj, d, es) if d is not None else Ptr(p.obj, tot, 1)
    def sx(s, iv):
        t, v = iv
        if v is UNDEF: return s.ints.fresh('undef', 64)
        if z3_bv(v) and v.size() < 64: return z3.SignExt(64 - v.size(), v)
        return v
    def addi(s, a, b): return s.ints.add(a, b, 64)
    def muli(s, a, b): return s.ints.mul(a, b, 64)
    # ---------------------------------------------------------- memory
    def globptr(s, g, mod):
        k = ('glob', g, id(mod))
        if k not in s.cache:
            o = Obj(g, 'glob'); o.ginit = mod.glob_init(g); o.mod = mod; o.ro = True; s.cache[k] = o
        return Ptr(s.cache[k], 0, 1)
    def flat(s, ty, v, off, out, mod):
        if v is None: return
        if ty[0] == 'a':
            if v[0] == 'zero':
                for i in range(ty[1]): s.flat(ty[2], v, off + i*tsize(ty[2]), out, mod)
            elif v[0] == 'bytes':
                raw = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), v[1][2:-1])
                for i, ch in enumerate(raw): out[off + i] = (('i', 8), ord(ch) if ord(ch) < 128 else ord(ch) - 256)
            elif v[0] == 'agg':
                for i, (t, e) in enumerate(v[1]): s.flat(t, e, off + i*tsize(ty[2]), out, mod)
        elif ty[0] == 's':
            for i, t in enumerate(ty[1]): s.flat(t, v if v[0] == 'zero' else v[1][i][1], off + foff(ty, i), out, mod)
        else:
            class F: env = {}
            f = F(); f.mod = mod; out[off] = (ty, s.const(v, ty, f))
    def memof(s, st, o):
        m = st.mem.get(o)
        if m is None:
            if o.kind == 'glob':
                out = {}
                if o.ginit is None: raise Unsupported("external global " + o.name)
                if not o.ginit[2]: raise Unsupported("read of a variable that outlives the call: " + o.name)
                s.flat(o.ginit[0], o.ginit[1], 0, out, o.mod); m = Mem('cells', out)
            elif o.kind == 'cells': m = Mem('cells', {})
            elif o.kind == 'arr' and o.ety is not None: m = Mem('arr', o.init)
            elif o.kind in ('raw', 'arr'): m = Mem('raw', {})
            else: raise Unsupported("memory of %s (%s)" % (o, o.kind))
            st.mem[o] = m
        return m
    def arrsort(s, ety):
        if ety[0] == 'f': return z3.ArraySort(IntS if isinstance(s.ints, IntMath) else z3.BitVecSort(64), s.fp.sort(ety[1]))
        return z3.ArraySort(IntS, IntS) if isinstance(s.ints, IntMath) else z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(ety[1]))
    def freshA(s, nm, ety): return z3.Const(s.fresh_name(nm), s.arrsort(ety))
    def to_arr(s, st, o, ety):
        """fix the element type of an untyped object"""
        m = s.memof(st, o)
        if m.kind == 'raw':
            base = s.cache.get(('base', o.id, ety))
            if base is None: base = s.cache[('base', o.id, ety)] = z3.Const("%s@%d" % (o.name, o.id), s.arrsort(ety))
            o.ety = ety; o.init = base
            m = Mem('arr', base)
            if 'fill' in st.mem.get(o, m).d if isinstance(st.mem.get(o, m).d, dict) else False:
                pass
            f = s.memof(st, o).d.get('fill') if s.memof(st, o).kind == 'raw' else None
            if f is not None: m = Mem('arr', z3.K(IntS if isinstance(s.ints, IntMath) else z3.BitVecSort(64), s.lift(s.const(('zero',), ety), ety)))
            st.mem[o] = m
        return m
    def lift(s, v, ety):
        if ety[0] == 'i': return s.ints.lift(v, ety[1])
        return v
    def sel(s, A, i, st=None):
        """A[i] with store/ite/K simplification; facts for summarised arrays"""
        n = 0
        while True:
            if z3.is_store(A):
                d = psub(i, s.low(A.arg(1))) if isinstance(s.ints, IntMath) else None
                if d is None:
                    if same(ZI(i) if isc(i) else i, A.arg(1)): return A.arg(2)
                    break
                if isc(d):
                    if d == 0: return s.low(A.arg(2))
                    A = A.arg(0); continue
                break
            if z3.is_const_array(A): return s.low(A.arg(0))
            if z3.is_app_of(A, z3.Z3_OP_ITE):
                return s.ite(A.arg(0), s.sel(A.arg(1), i), s.sel(A.arg(2), i))
            break
        t = z3.Select(A, s.lift(i, ('i', 64)))
        s.instantiate(A, i, t); return t
    def low(s, t): return t.as_long() if z3.is_int_value(t) else t
    def instantiate(s, A, i, t, depth=0):
        base = A
        while z3.is_store(base): base = base.arg(0)
        if z3.is_app_of(base, z3.Z3_OP_ITE):
            if depth < 8:
                for k in (1, 2): b = base.arg(k); s.instantiate(b, i, z3.Select(b, s.lift(i, ('i', 64))), depth + 1)
            return
        nm = base.decl().name(); key = ('inst', t.get_id())
        if nm.startswith('copy') and base.num_args() == 5:
            D, S, d, sr, n = base.children(); q = ZI(i); r = z3.And(q >= d, q < d + n)
            if (key, len(s.facts)) and key not in s.summ:
                s.summ[key] = t
                bt = z3.Select(base, q)
                s.fact(z3.And(z3.Implies(r, bt == s.lift(s.sel(S, s.low(z3.simplify(q - d + sr))), ('i', 64)) if True else None), z3.Implies(z3.Not(r), bt == s.lift(s.sel(D, i), ('i', 64)))), 'copy')
            return
        if nm.startswith('fill') and base.num_args() == 4:
            D, d, n, v = base.children(); q = ZI(i); r = z3.And(q >= d, q < d + n)
            if key not in s.summ:
                s.summ[key] = t; bt = z3.Select(base, q)
                s.fact(z3.And(z3.Implies(r, bt == v), z3.Implies(z3.Not(r), bt == s.lift(s.sel(D, i), ('i', 64)))), 'fill')
            return
        sm = s.summ.get(nm)
        if sm and key not in s.summ:
            s.summ[key] = t; sm(i, z3.Select(base, s.lift(i, ('i', 64))))
    def load(s, st, p, ty, ins=None):
        if isinstance(p, PtrIte): return s.ite(p.c, s.load(st.fork(p.c), p.a, ty, ins), s.load(st.fork(bnot(p.c)), p.b, ty, ins))
        if p is UNDEF or p.obj is None: raise Unsupported("load through null/undef pointer " + str(ins))
        o = p.obj
        if o.kind == 'unknown': return s.freshval('unk', ty)
        h = getattr(o, 'on_load', None)
        if h is not None: return h(s, st, p, ty)
        m = s.memof(st, o)
        if m.kind == 'cells': return s.cload(st, m, p, ty, o)
        if m.kind == 'tok': return s.tokload(st, o, m, p, ty)
        if m.kind == 'raw': 
            m = s.to_arr(st, o, ty)
        if m.kind == 'arr':
            if o.ety != ty:
                if tsize(o.ety) == tsize(ty) and o.ety[0] == ty[0] == 'i': pass
                else: raise Unsupported("load of %r from %s of %r" % (ty, o, o.ety))
            q = s.rescale(p, tsize(ty)) if isinstance(s.ints, IntMath) else s.rescale_bv(p, tsize(ty))
            if q is None: raise Unsupported("unaligned load %s" % ins)
            s.bounds(st, o, q, ins, 'load')
            v = s.sel(m.d, q.idx, st)
            return v
        raise Unsupported("load from %s" % m.kind)
    def rescale_bv(s, p, e):
        if p.es == e: return p
        return None
    def bounds(s, st, o, q, ins, what):
        if not s.check_bounds or s.quiet or o.size is None: return
        n = div_exact(o.size, q.es)
        lo = s.ints.icmp('sge', q.idx, 0, 64)
        hi = s.ints.icmp('slt', q.idx, n, 64) if n is not None else s.ints.icmp('sle', pmul(padd(q.idx, 1), q.es), o.size, 64)
        s.oblige("%s %s within %s" % (what, str(ins)[:60], o.name), band(lo, hi), st.pc, ('C14',))
    def cload(s, st, m, p, ty, o):
        off = p.byteoff() if isinstance(s.ints, IntMath) else (p.idx * p.es if isc(p.idx) else s.muli(p.idx, p.es))
        if isc(off):
            c = m.d.get(off)
            if c is None:
                # partial view of an aggregate / different width
                for w, (t, v) in m.d.items():
                    if isc(w) and w < off < w + tsize(t): raise Unsupported("partial cell load in %s" % o)
                return UNDEF if ty[0] != 'p' else UNDEF
            t, v = c
            if t != ty:
                if v is UNDEF: return UNDEF
                if t[0] == 'i' and ty[0] == 'i' and tsize(t) == tsize(ty): 
                    if t[1] == 1: return s.ints.zext(v, 1, ty[1])
                    if ty[1] == 1: return s.ints.trunc(v, t[1], 1)
                    return v
                if t[0] == 'i' and ty[0] == 'i' and t[1] > ty[1] and isinstance(s.ints, IntBV): return s.ints.trunc(v, t[1], ty[1])
                if t[0] == 'i' and ty[0] == 'f' and isinstance(s.fp, FPD): return z3.fpBVToFP(s.ints.lift(v, t[1]), s.fp.sort(ty[1]))
                if t[0] == 'f' and ty[0] == 'i' and isinstance(s.fp, FPD): return z3.fpToIEEEBV(v)
                if t[0] == 'i' and ty[0] == 'f' and isc(v) : return s.fp.const(v & ((1 << ty[1]) - 1), ty[1])
                if t[0] == 'f' and ty[0] == 'i' and s.fp.cval(v) is not None: return ir.fbits(s.fp.cval(v), t[1])
                raise Unsupported("type punning %r as %r in %s" % (t, ty, o))
            return v
        cand = sorted(w for w, (t, v) in m.d.items() if t == ty)
        if not cand or len(cand) > 128: raise Unsupported("symbolic index into %s" % o)
        r = m.d[cand[-1]][1]
        if r is UNDEF: r = s.freshval('undef', ty)
        for w in cand[:-1][::-1]:
            r = s.ite(s.ints.icmp('eq', off, w, 64), s.num(m.d[w][1], ty), r)
        return r
    def store(s, st, p, v, ty, ins=None):
        if isinstance(p, PtrIte):
            for c, q in ((p.c, p.a), (bnot(p.c), p.b)):
                st2 = st.fork(c); s.store(st2, q, v, ty, ins)
                for o in st2.mem:
                    if st2.mem[o] is not st.mem.get(o): st.mem[o] = s.memite(c, st2.mem[o], st.mem.get(o) or s.memof(st, o), o)
            return
        if p is UNDEF or p.obj is None: raise Unsupported("store through null/undef pointer " + str(ins))
        o = p.obj
        if o.kind == 'unknown': raise Unsupported("store through unknown pointer " + str(ins))
        if o.ro:
            s.oblige("%s %s is not written: %s" % ('a variable that outlives the call,' if o.kind == 'glob' else 'input', o.name, str(ins)[:60]), False, st.pc, ('C20',)); 
        o.stored = True
        m = s.memof(st, o)
        if m.kind == 'cells':
            off = p.byteoff() if isinstance(s.ints, IntMath) else (p.idx * p.es if isc(p.idx) else s.muli(p.idx, p.es))
            d = dict(m.d)
            if isc(off):
                if isinstance(v, Agg):
                    s.aggstore(d, off, v, ty)
                else: d[off] = (ty, v)
            else:
                n = 0
                for w, (t, x) in m.d.items():
                    if t == ty: d[w] = (t, s.ite(s.ints.icmp('eq', off, w, 64), v, x)); n += 1
                if n == 0:
                    size = o.size if isc(o.size) else None
                    if size is None or size // tsize(ty) > 64: raise Unsupported("symbolic store into empty %s" % o)
                    for w in range(0, size, tsize(ty)): d[w] = (ty, s.ite(s.ints.icmp('eq', off, w, 64), v, s.freshval('undef', ty)))
            st.mem[o] = Mem('cells', d); s.logit(('cell', o, off, st.pc, v)); return
        if m.kind == 'tok' or (m.kind == 'arr' and o.ety != ty and not (tsize(o.ety) == tsize(ty) and o.ety[0] == ty[0])) or (m.kind == 'raw' and getattr(o, 'stream', False)):
            s.tokstore(st, o, p.byteoff(), tsize(ty), ('val', ty, v)); return
        if m.kind == 'raw':
            if ty[0] == 'p': o.kind = 'cells'; st.mem[o] = Mem('cells', {}); return s.store(st, p, v, ty, ins)
            m = s.to_arr(st, o, ty)
        q = s.rescale(p, tsize(ty)) if isinstance(s.ints, IntMath) else s.rescale_bv(p, tsize(ty))
        if q is None: raise Unsupported("unaligned store %s" % ins)
        s.bounds(st, o, q, ins, 'store')
        if v is UNDEF: v = s.freshval('undef', ty)
        if not s.loopdepth and isc(q.idx) and not hasattr(o, 'rawst'): o.rawst = []
        if not s.loopdepth and hasattr(o, 'rawst') and isc(q.idx): o.rawst.append((st.pc, q.idx * tsize(ty), ty, v))
        A = m.d; i = s.lift(q.idx, ('i', 64))
        if z3.is_store(A) and A.arg(1).eq(i): A = A.arg(0)
        st.mem[o] = Mem('arr', z3.Store(A, i, s.lift(v, ty)))
        s.logit(('st', o, q.idx, st.pc, v))
    def aggstore(s, d, off, v, ty):
        for i, x in enumerate(v.v):
            t = ty[1][i] if ty[0] == 's' else ty[2]; o2 = off + (foff(ty, i) if ty[0] == 's' else i*tsize(t))
            if isinstance(x, Agg): s.aggstore(d, o2, x, t)
            else: d[o2] = (t, x)
    def logit(s, e): s.logs[-1].append(e)
    # -- token streams
    def mktok(s, st, o):
        m = st.mem.get(o)
        if m is None or m.kind == 'raw' or m.kind == 'tok': return m if m is not None and m.kind == 'tok' else Mem('tok', ())
        if m.kind == 'arr' and hasattr(o, 'rawst'):
            o.kind = 'raw'; o.stream = True
            return Mem('tok', tuple((pc, off, tsize(ty), ('val', ty, v)) for pc, off, ty, v in o.rawst))
        raise Unsupported("mixed use of %s" % o)
    def tokstore(s, st, o, off, ln, payload):
        if s.loopdepth and not getattr(o, 'loopstream', False): raise Unsupported("stream write in a loop: %s" % o)
        m = s.mktok(st, o); o.stream = True
        st.mem[o] = Mem('tok', m.d + ((st.pc, off, ln, payload),))
    def tokfind(s, st, o, m, off, ty, ln):
        cands = []
        for t in m.d:
            d = psub(off, t[1])
            if isc(d) and d == 0: cands.insert(0, (t, 0))
            else: cands.append((t, d))
        for t, d in cands:
            if any(s.contradicts(st.pc, l) for l in t[0]): continue
            pay = t[3]
            if isc(d) and d == 0:
                return t, 0
            if pay[0] == 'arr' and ty is not None:
                k = div_exact(d, tsize(pay[1]))
                if k is not None and s.holds(band(s.ints.icmp('sge', k, 0, 64), s.ints.icmp('slt', k, pay[4], 64)), st.pc, 3000): return t, k
        for t, d in cands:
            if any(s.contradicts(st.pc, l) for l in t[0]): continue
            if not isc(d) and s.holds(s.ints.icmp('eq', d, 0, 64), st.pc, 5000): return t, 0
        return None, None
    def contradicts(s, pc, l):
        n = bnot(l)
        return any(same(x, n) for x in pc)
    def viewptr(s, st, p):
        """pointer into an array field of a stream: as a pointer into that array (range of its uses: by the reader's position)"""
        if not isinstance(p, Ptr) or p.obj is None: return p
        m = st.mem.get(p.obj)
        if m is None or m.kind != 'tok': return p
        for t in m.d:
            if t[3][0] == 'arr' and same(psub(p.byteoff(), t[1]), 0) and not any(s.contradicts(st.pc, l) for l in t[0]):
                key = ('view', p.obj.id, t[3][2].get_id(), str(t[1])); b = tsize(t[3][1])
                if key not in s.cache:
                    o = Obj('field_%s' % (t[3][5].name if len(t[3]) > 5 else p.obj.name), 'arr', pmul(b, padd(t[3][3], t[3][4])), t[3][1]); o.init = t[3][2]; o.ro = True; o.view = t; s.cache[key] = o; s.keep.append(t)
                return Ptr(s.cache[key], t[3][3], b)
        return p
    def tokload(s, st, o, m, p, ty):
        t, k = s.tokfind(st, o, m, p.byteoff(), ty, tsize(ty))
        if t is None:
            s.oblige("read of %r at offset %s meets a written field" % (ty, str(p.byteoff())[:80]), False, st.pc, ('C13',)); raise Unsupported("read outside of the written fields at %s" % str(p.byteoff())[:200])
        pay = t[3]; g = [l for l in t[0] if not any(same(l, x) for x in st.pc)]
        if g: s.oblige("field read only where it was written", band(*g), st.pc, ('C13',))
        if pay[0] == 'val':
            if pay[1] != ty and not (pay[1][0] == ty[0] and tsize(pay[1]) == tsize(ty)):
                s.oblige("field of %r read as %r" % (pay[1], ty), False, st.pc, ('C13',)); raise Unsupported("field type")
            s.oblige("field read as written", True, st.pc, ('C13',))
            return pay[2]
        if pay[0] == 'arr':
            if pay[1] != ty: s.oblige("array field of %r read as %r" % (pay[1], ty), False, st.pc, ('C13',)); raise Unsupported("field type")
            s.oblige("array field element %s in range" % str(k)[:40], band(s.ints.icmp('sge', k, 0, 64), s.ints.icmp('slt', k, pay[4], 64)), st.pc, ('C13',))
            return s.sel(pay[2], padd(pay[3], k))
        raise Unsupported("read of " + pay[0])
    # -- merging of memories
    def memite(s, c, a, b, o):
        if a is b: return a
        if a is None: return b
        if b is None: return a
        if a.kind == 'raw' and b.kind != 'raw': a = s.raise_raw(a, b, o)
        if b.kind == 'raw' and a.kind != 'raw': b = s.raise_raw(b, a, o)
        if a.kind != b.kind: raise Unsupported("merge of %s and %s for %s" % (a.kind, b.kind, o))
        if a.kind == 'raw': return a
        if a.kind == 'arr':
            if a.d.eq(b.d): return a
            return Mem('arr', s.arrite(c, a.d, b.d))
        if a.kind == 'cells':
            d = {}
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                x, y = a.d.get(k), b.d.get(k)
                if x is None: d[k] = y; continue
                if y is None: d[k] = x; continue
                if x is y or (x[0] == y[0] and same(x[1], y[1])): d[k] = x; continue
                if x[0] != y[0]:
                    if x[1] is UNDEF: d[k] = y; continue
                    if y[1] is UNDEF: d[k] = x; continue
                    if x[0][0] == y[0][0] == 'i' and tsize(x[0]) == tsize(y[0]):
                        cv = lambda z: s.ints.zext(z[1], 1, 8) if z[0][1] == 1 else z[1]
                        d[k] = (('i', 8), s.ite(c, cv(x), cv(y))); continue
                    raise Unsupported("merge of cells of different type in %s" % o)
                d[k] = (x[0], s.tite(c, x[1], y[1], x[0]))
            return Mem('cells', d)
        if a.kind == 'tok':
            n = 0
            while n < len(a.d) and n < len(b.d) and (a.d[n] is b.d[n] or a.d[n] == b.d[n]): n += 1
            return Mem('tok', a.d + b.d[n:])
        if a.kind == 'vec':
            return Mem('vec', s.ite(c, a.d, b.d))
        raise Unsupported("merge " + a.kind)
    def raise_raw(s, a, b, o):
        if b.kind == 'arr': return Mem('arr', o.init)
        if b.kind == 'tok': return Mem('tok', ())
        return a
    def arrite(s, c, a, b):
        # store chains over the same base: push the choice to the elements
        def chain(A):
            ch = []
            while z3.is_store(A): ch.append((A.arg(1), A.arg(2))); A = A.arg(0)
            return A, ch[::-1]
        ba, ca = chain(a); bb, cb = chain(b)
        if ba.eq(bb):
            idx = []
            for i, _ in ca + cb:
                if not any(i.eq(j) for j in idx): idx.append(i)
            ok = all(isc(psub(s.low(i), s.low(j))) or i.eq(j) for n, i in enumerate(idx) for j in idx[:n]) if isinstance(s.ints, IntMath) else False
            if ok and len(idx) <= 24:
                r = ba
                for i in idx:
                    va = next((v for j, v in ca[::-1] if j.eq(i)), None); vb = next((v for j, v in cb[::-1] if j.eq(i)), None)
                    if va is None: va = z3.Select(ba, i); s.instantiate(ba, s.low(i), va)
                    if vb is None: vb = z3.Select(ba, i); s.instantiate(ba, s.low(i), vb)
                    x = s.ite(c, s.low(va), s.low(vb)); r = z3.Store(r, i, ZI(x) if isc(x) else x)
                return r
        return z3.If(c, a, b)
    def merge(s, edges):
        """edges: list of (State, phi dict) -> one (State, phi dict)"""
        edges = [e for e in edges if not any(l is False for l in e[0].pc)]
        if not edges: return None
        while len(edges) > 1:
            done = False
            for i in range(len(edges)):
                for j in range(i + 1, len(edges)):
                    pi, pj = edges[i][0].pc, edges[j][0].pc
                    if len(pi) == len(pj) and len(pi) and all(same(x, y) for x, y in zip(pi[:-1], pj[:-1])) and same(pi[-1], bnot(pj[-1])):
                        edges[i] = s.merge2(pi[:-1], pi[-1], edges[i], edges[j]); del edges[j]; done = True; break
                if done: break
            if done: continue
            # one pc extends the common prefix of the other
            best = None
            for i in range(len(edges)):
                for j in range(i + 1, len(edges)):
                    pi, pj = edges[i][0].pc, edges[j][0].pc; n = 0
                    while n < len(pi) and n < len(pj) and same(pi[n], pj[n]): n += 1
                    if best is None or n > best[0]: best = (n, i, j)
            n, i, j = best; pi, pj = edges[i][0].pc, edges[j][0].pc
            ri, rj = pi[n:], pj[n:]; c = band(*ri)
            if ri and rj and same(ri[0], bnot(rj[0])):
                # split on the first differing literal
                rest = []
                if len(ri) > 1 or len(rj) > 1: rest = [z3.If(ri[0], ZB(band(*ri[1:])), ZB(band(*rj[1:])))]
                c = ri[0]
            else: rest = [bor(c, band(*rj))]
            rest = [r for r in rest if r is not True]
            if isinstance(c, bool): c = z3.BoolVal(c)
            edges[i] = s.merge2(pi[:n] + tuple(rest), c, edges[i], edges[j]); del edges[j]
        return edges[0]
    def merge2(s, pc, c, a, b):
        sa, sb = a[0], b[0]; mem = {}
        for o in list(sa.mem) + [o for o in sb.mem if o not in sa.mem]:
            x, y = sa.mem.get(o), sb.mem.get(o)
            if x is None or y is None:
                z = x if y is None else y
                dflt = s.base_mem(o, z)
                mem[o] = z if dflt is None else s.memite(c, x or dflt, y or dflt, o)
            else: mem[o] = s.memite(c, x, y, o)
        ty = getattr(a[1], 'tys', {}); phi = Phi({k: s.tite(c, a[1][k], b[1][k], ty.get(k)) for k in a[1]}); phi.tys = ty
        return State(pc, mem), phi
    def base_mem(s, o, z):
        if o.kind == 'glob' : return None
        if z.kind == 'arr': return Mem('arr', o.init)
        if z.kind == 'tok': return Mem('tok', ())
        return None
    # ---------------------------------------------------------- execution
    def call_func(s, f, mod, args, st, path):
        cfg(f); fr = Frame(f, mod, path)
        for (n, t), a in zip(f.params, args): fr.env[n] = a
        ro = [] if path or s.quiet else [(a.obj, s.memof(st, a.obj)) for a in args if isinstance(a, Ptr) and a.obj is not None and a.obj.ro and a.obj.kind != 'unknown']
        r = s.region(fr, None, f.order[0], [Edge(None, f.order[0], st, {})])
        rets = [(x, mkphi('ret', v, f.ret)) for x, v in r[2]]
        if not rets: return None, None
        m = s.merge(rets)
        for o, a in ro:
            b = s.memof(m[0], o); same_ = a is b or (a.kind == b.kind == 'arr' and a.d.eq(b.d)) or (a.kind == b.kind == 'cells' and all(k in b.d and (b.d[k] is v or b.d[k] == v) for k, v in a.d.items())) or (isinstance(a.d, list) and isinstance(b.d, list) and len(a.d) == len(b.d) and all(x is y for x, y in zip(a.d, b.d)))
            s.oblige('the function leaves its input %s as it was' % o.name, bool(same_), (), ('C20',))
        return m[0], m[1]['ret']
    def region(s, fr, L, entry, inedges, prebuilt=None):
        f = fr.fn; pending = {entry: list(inedges)}; back, out, rets = [], [], []
        body = L.body if L else set(f.rpo); hdr = L.header if L else None
        def route(e):
            if L and e.dst == hdr: back.append(e)
            elif e.dst in body: pending.setdefault(e.dst, []).append(e)
            else: out.append(e)
        for b in f.rpo:
            if b not in body or b not in pending: continue
            es = pending.pop(b)
            if b in f.loops and f.loops[b] is not L:
                for e in s.loop(fr, f.loops[b], es, rets): route(e)
                continue
            if prebuilt and b == entry: st, phi = prebuilt
            else:
                m = s.merge([(e.st, e.phi) for e in es])
                if m is None: continue
                st, phi = m
            fr.env.update(phi)
            for e in s.block(fr, b, st, rets): route(e)
            if L and b == hdr: s.cache[('mark', fr.path, f.name, hdr)] = len(s.facts)
        return back, out, rets
    def edge(s, fr, b, dst, st):
        phi = Phi(); phi.tys = {}
        for ins in fr.fn.blocks[dst].ins:
            if ins.op != 'phi': break
            phi.tys[ins.name] = ins.ty
            for v, bl in ins.a:
                if bl == b: phi[ins.name] = s.val(fr, v, ins.ty); break
        return Edge(b, dst, st, phi)
    def block(s, fr, b, st, rets):
        if s.deadline and time.time() > s.deadline: raise Unsupported("time budget exhausted")
        for ins in fr.fn.blocks[b].ins:
            op = ins.op
            if op == 'phi': continue
            if op == 'br':
                if len(ins.a) == 1: return [s.edge(fr, b, ins.a[0], st)]
                c = s.val(fr, ins.a[0], ('i', 1)); c = s.num(c, ('i', 1))
                if ins.a[1] == ins.a[2]: return [s.edge(fr, b, ins.a[1], st)]
                if c is True: return [s.edge(fr, b, ins.a[1], st)]
                if c is False: return [s.edge(fr, b, ins.a[2], st)]
                for l in st.pc:
                    if same(l, c): return [s.edge(fr, b, ins.a[1], st)]
                    if same(l, bnot(c)): return [s.edge(fr, b, ins.a[2], st)]
                if getattr(s, 'prune', False) and (s.prune is True or freevars(c) <= s.prune):
                    if s.holds(c, st.pc, 3000): return [s.edge(fr, b, ins.a[1], st)]
                    if s.holds(bnot(c), st.pc, 3000): return [s.edge(fr, b, ins.a[2], st)]
                return [s.edge(fr, b, ins.a[1], st.fork(c)), s.edge(fr, b, ins.a[2], st.fork(bnot(c)))]
            if op == 'switch':
                v = s.val(fr, ins.a[0], ins.ty); es = []; nots = []
                if isc(v):
                    for cv, d in ins.a[2]:
                        if cv == v: return [s.edge(fr, b, d, st)]
                    return [s.edge(fr, b, ins.a[1], st)]
                for cv, d in ins.a[2]:
                    c = s.ints.icmp('eq', v, cv, ins.ty[1]); es.append(s.edge(fr, b, d, st.fork(*(nots + [c])))); nots.append(bnot(c))
                es.append(s.edge(fr, b, ins.a[1], st.fork(*nots))); return es
            if op == 'ret':
                rets.append((st, s.val(fr, ins.a[0], ins.ty) if ins.a else None)); return []
            if op == 'unreachable': return []
            r = s.inst(fr, ins, st)
            if r is DEAD: return []
            if ins.name is not None: fr.env[ins.name] = r
        return []
    def inst(s, fr, ins, st):
        op = ins.op; V = lambda v, t: s.val(fr, v, t); I = s.ints
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = V(ins.a[0], ins.ty), V(ins.a[1], ins.ty); w = ins.ty[1]
            if isinstance(a, PtrInt) or isinstance(b, PtrInt):
                return s.ptrarith(op, a, b)
            if w == 1:
                a, b = s.num(a, ins.ty), s.num(b, ins.ty)
                if op == 'and': return band(a, b)
                if op == 'or': return bor(a, b)
                if op == 'xor':
                    if isinstance(b, bool): return bnot(a) if b else a
                    if isinstance(a, bool): return bnot(b) if a else b
                    return z3.Xor(a, b)
            if a is UNDEF or b is UNDEF: return UNDEF
            return getattr(I, {'and': 'and_', 'or': 'or_'}.get(op, op))(a, b, w)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = V(ins.a[0], ins.ty), V(ins.a[1], ins.ty)
            return s.fp.bin(op, s.num(a, ins.ty), s.num(b, ins.ty), ins.ty[1])
        if op == 'fneg': return s.fp.neg(s.num(V(ins.a[0], ins.ty), ins.ty), ins.ty[1])
        if op == 'icmp':
            pr, t, a, b = ins.a; a, b = V(a, t), V(b, t)
            if t[0] == 'p': return s.pcmp(pr, a, b)
            if isinstance(a, PtrInt) or isinstance(b, PtrInt): return s.pcmp(pr, a.p, b.p)
            a, b = s.num(a, t), s.num(b, t)
            if t[1] == 1:
                if isinstance(b, bool): return a if b == (pr == 'eq') else bnot(a)
                r = ZB(a) == ZB(b); return r if pr == 'eq' else z3.Not(r)
            return I.icmp(pr, a, b, t[1])
        if op == 'fcmp':
            pr, t, a, b = ins.a; return s.fp.cmp(pr, s.num(V(a, t), t), s.num(V(b, t), t), t[1])
        if op in ('trunc', 'zext', 'sext'):
            t, a = ins.a; a = V(a, t)
            if isinstance(a, PtrInt): return a
            if a is UNDEF: return UNDEF
            return getattr(I, op)(a, t[1], ins.ty[1])
        if op == 'fpext': t, a = ins.a; return s.fp.ext(s.num(V(a, t), t), t[1], ins.ty[1])
        if op == 'fptrunc': t, a = ins.a; return s.fp.trunc(s.num(V(a, t), t), t[1], ins.ty[1])
        if op in ('fptosi', 'fptoui'):
            t, a = ins.a; return s.fp.toint(s.num(V(a, t), t), t[1] if not isinstance(s.fp, FPD) else ins.ty[1])
        if op in ('sitofp', 'uitofp'):
            t, a = ins.a; a = s.num(V(a, t), t)
            if t[1] == 1: a = I.zext(a, 1, 32) if op == 'uitofp' else I.sext(a, 1, 32)
            return s.fp.fromint(a if not isinstance(s.ints, IntBV) else I.lift(a, t[1]), ins.ty[1], op == 'sitofp')
        if op == 'ptrtoint': return PtrInt(V(ins.a[1], ('p',)))
        if op == 'inttoptr':
            a = V(ins.a[1], ins.a[0])
            if isinstance(a, PtrInt): return a.p
            raise Unsupported("inttoptr")
        if op == 'bitcast':
            t, a = ins.a; v = V(a, t)
            if t == ins.ty: return v
            if isinstance(s.fp, FPD):
                if t[0] == 'f' and ins.ty[0] == 'i': return z3.fpToIEEEBV(v)
                if t[0] == 'i' and ins.ty[0] == 'f': return z3.fpBVToFP(I.lift(v, t[1]), s.fp.sort(ins.ty[1]))
            if t[0] == 'f' and ins.ty[0] == 'i': return z3.Function('bits%d' % t[1], s.fp.sort(t[1]), IntS)(v)
            if t[0] == 'i' and ins.ty[0] == 'f':
                if isc(v): return s.fp.const(v & ((1 << t[1]) - 1), t[1])
                return z3.Function('frombits%d' % t[1], IntS, s.fp.sort(t[1]))(v)
            raise Unsupported("bitcast")
        if op == 'freeze': return s.num(V(ins.a[0], ins.ty), ins.ty) if ins.ty[0] != 'p' else V(ins.a[0], ins.ty)
        if op == 'select':
            c, a, b = ins.a; c = V(c, ('i', 1)); return s.tite(s.num(c, ('i', 1)), V(a, ins.ty), V(b, ins.ty), ins.ty)
        if op == 'getelementptr':
            bt, base, idx = ins.a; return s.gep(V(base, ('p',)), bt, [(t, V(x, t)) for t, x in idx])
        if op == 'alloca':
            n = V(ins.a[0], ('i', 64)); sz = pmul(n, tsize(ins.ty)) if isc(n) else None
            k = ('alloca', fr.path, fr.fn.name, ins.name)
            o = Obj(ins.name, 'cells', sz); o.aty = ins.ty; return Ptr(o, 0, 1)
        if op == 'load':
            r = s.load(st, V(ins.a[0], ('p',)), ins.ty, ins)
            if r is UNDEF and ins.ty[0] != 'p': r = s.freshval('uninit', ins.ty)
            return r
        if op == 'store':
            v, p = ins.a; s.store(st, V(p, ('p',)), V(v, ins.ty), ins.ty, ins); return None
        if op == 'extractvalue':
            t, v, ix = ins.a; x = V(v, t)
            for i in ix: x = x.v[i] if x is not UNDEF else UNDEF
            return x
        if op == 'insertvalue':
            v, w, ix = ins.a; x = V(v, ins.ty)
            if x is UNDEF: x = Agg([UNDEF] * len(ins.ty[1]))
            y = Agg(list(x.v)); y.v[ix[0]] = V(w, ins.ty[1][ix[0]] if ins.ty[0] == 's' else ins.ty[2]); return y
        if op == 'call': return s.call(fr, ins, st)
        raise Unsupported("instruction " + op)
    def ptrarith(s, op, a, b):
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            p, q = a.p, b.p
            if isinstance(p, PtrIte): return s.ite(p.c, s.ptrarith(op, PtrInt(p.a), b), s.ptrarith(op, PtrInt(p.b), b))
            if p.obj is not q.obj: raise Unsupported("difference of unrelated pointers")
            return psub(p.byteoff(), q.byteoff())
        if op == 'add' and isinstance(a, PtrInt) and not isinstance(b, PtrInt): return PtrInt(Ptr(a.p.obj, padd(a.p.byteoff(), b), 1))
        raise Unsupported("pointer arithmetic " + op)
    def pcmp(s, pr, a, b):
        if isinstance(a, PtrIte): return s.ite(a.c, s.pcmp(pr, a.a, b), s.pcmp(pr, a.b, b))
        if isinstance(b, PtrIte): return s.ite(b.c, s.pcmp(pr, a, b.a), s.pcmp(pr, a, b.b))
        if a is UNDEF or b is UNDEF: return z3.Bool(s.fresh_name('undefcmp'))
        if a.obj is not b.obj:
            if pr in ('eq', 'ne'):
                o = a.obj or b.obj
                if getattr(o, 'maybe_null', None) is not None and (a.obj is None or b.obj is None): return o.maybe_null if pr == 'eq' else bnot(o.maybe_null)
                if o is not None and o.kind == 'unknown': return z3.Bool(s.fresh_name('ptrcmp'))
                return pr == 'ne'
            raise Unsupported("comparison of unrelated pointers")
        if a.obj is None: return s.ints.icmp(pr, a.idx, b.idx, 64)
        if a.es == b.es: return s.ints.icmp(pr if pr in ('eq', 'ne') else 's' + pr[1:], a.idx, b.idx, 64)
        return s.ints.icmp(pr if pr in ('eq', 'ne') else 's' + pr[1:], a.byteoff(), b.byteoff(), 64)
    # ---------------------------------------------------------- calls
    def malloc(s, st, size, nm, ins):
        o = Obj(nm, 'raw', size); s.allocs.append(o); st.mem[o] = Mem('raw', {}); return Ptr(o, 0, 1)
    def call(s, fr, ins, st):
        cal, args, kind = ins.a
        if kind == 'loc': raise Unsupported("indirect call")
        A = [s.val(fr, v, t) for t, v in args]
        def A_(i): return s.num(A[i], args[i][0])
        if cal.startswith('llvm.'):
            b = cal[5:]
            if b.startswith('memcpy') or b.startswith('memmove'): s.memcpy(st, A[0], A[1], A[2]); return None
            if b.startswith('memset'): s.memset(st, A[0], A[1], A[2]); return None
            if b.startswith('fabs'): return s.fp.abs(A_(0), ins.ty[1])
            m = re.match(r'(sqrt|log2|log|exp|exp2|floor|ceil|round|log10|trunc|rint)\.f(32|64)$', b)
            if m: return s.fp.un(m.group(1), A_(0), int(m.group(2)))
            m = re.match(r'(pow)\.f(32|64)$', b)
            if m: return s.fp.bin2('pow', A_(0), A_(1), int(m.group(2)))
            m = re.match(r'(minnum|maxnum)', b)
            m = re.match(r'(umin|umax|smin|smax)\.i(\d+)$', b)
            if m:
                c = s.ints.icmp(m.group(1)[0] + ('lt' if m.group(1)[1:] == 'min' else 'gt'), A_(0), A_(1), int(m.group(2))); return s.ite(c, A[0], A[1])
            if re.match(r'abs\.i', b): return s.ite(s.ints.icmp('slt', A_(0), 0, ins.ty[1]), s.ints.sub(0, A[0], ins.ty[1]), A[0])
            if b.startswith(('stacksave', 'stackrestore', 'va_start', 'va_end', 'prefetch')): return NULL
            if b == 'trap': return DEAD
            if b.startswith('expect'): return A[0]
            raise Unsupported("intrinsic " + cal)
        dem = ir.demangle([cal])[0]
        for rx, h in s.contracts:
            if rx.search(dem):
                r = h(s, fr, st, ins, A, dem)
                if r is not NOTHANDLED: return r
        if cal in ('malloc', '_Znwm', '_Znam'): return s.malloc(st, A_(0), (ins.name or 'm').strip('%'), ins)
        if cal == 'calloc':
            p = s.malloc(st, s.ints.mul(A_(0), A_(1), 64), (ins.name or 'm').strip('%'), ins); st.mem[p.obj] = Mem('raw', {'fill': 0}); return p
        if cal in ('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv'):
            return None
        if cal in ('printf', 'puts', 'putchar', 'fflush', 'srand', 'fprintf') or dem.startswith(('std::basic_ostream', 'std::ostream', 'std::operator<<', 'std::ios_base', 'std::basic_ofstream', 'std::basic_ifstream', 'std::locale', 'writefile')): return NULL if ins.ty == ('p',) else (0 if ins.ty else None)
        if cal in ('exit', 'abort', '__assert_fail') or dem.startswith(('std::terminate', 'std::__throw')): return DEAD
        if cal == 'cbrt': return s.fp.un('cbrt', A_(0), 64)
        if cal in ('exp2', 'log2', 'exp', 'log', 'sqrt'): return s.fp.un(cal, A_(0), 64)
        if cal in ('exp2f', 'log2f', 'sqrtf', 'cbrtf'): return s.fp.un(cal[:-1], A_(0), 32)
        if cal in ('fabs',): return s.fp.abs(A_(0), 64)
        m = re.match(r'std::numeric_limits<(\w+)>::(epsilon|max|min|lowest)\(\)', dem)
        if m:
            import sys
            d = {('double', 'epsilon'): 2.0**-52, ('float', 'epsilon'): 2.0**-23, ('double', 'max'): sys.float_info.max, ('float', 'max'): 3.4028234663852886e38, ('double', 'min'): sys.float_info.min, ('double', 'lowest'): -sys.float_info.max}
            k = (m.group(1), m.group(2))
            if k in d: return s.fp.const(ir.fbits(d[k], 64 if k[0] == 'double' else 32), 64 if k[0] == 'double' else 32)
        v = s.stdvec(fr, st, ins, A, dem)
        if v is not NOTHANDLED: return v
        f = fr.mod.func(cal)
        if f is not None:
            st2, r = s.call_func(f, fr.mod, A, State(st.pc, dict(st.mem)), fr.path + (ins.name or str(id(ins)),))
            if st2 is None: return DEAD
            # the callee's merged pc may be weaker/stronger; keep ours plus what it added
            st.pc = st2.pc; st.mem = st2.mem; return r
        raise Unsupported("call of " + dem[:120])
    def stdvec(s, fr, st, ins, A, dem):
        m = re.match(r'std::vector<(\w[\w ]*), std::allocator<.*?> ?>::(operator\[\]|operator=|~?\w+)', dem)
        if not m: return NOTHANDLED
        ety = {'float': ('f', 32), 'double': ('f', 64), 'int': ('i', 32), 'unsigned long': ('i', 64), 'unsigned char': ('i', 8), 'char': ('i', 8)}.get(m.group(1))
        if ety is None: return NOTHANDLED
        meth = m.group(2); this = A[0]
        if not isinstance(this, Ptr): raise Unsupported("vector through merged pointer")
        o = this.obj; off = this.byteoff(); key = ('vec', o.id, off)
        def buf():
            if key not in s.cache:
                b = Obj('%s.data' % o.name.strip('%'), 'arr', None, ety); b.init = z3.Const("vecbuf@%d" % b.id, s.arrsort(ety)); s.cache[key] = b; b.vec = (o, off)
            return s.cache[key]
        def ln(): 
            c = s.memof(st, o).d.get(('vec', off))
            return c[1] if c else 0
        def setln(n):
            d = dict(s.memof(st, o).d); d[('vec', off)] = (('i', 64), n); st.mem[o] = Mem('cells', d); s.logit(('cell', o, ('vec', off), st.pc, n))
        cls = 'vector'
        if meth == 'vector':
            if '(std::vector' in dem: raise Unsupported("vector copy")
            b = buf()
            if len(A) == 1: setln(0)
            elif len(A) == 4 and isinstance(A[1], Ptr) and isinstance(A[2], Ptr) and A[1].obj is A[2].obj:      # a range of elements
                nb = psub(A[2].byteoff(), A[1].byteoff()); cnt = div_exact(nb, tsize(ety))
                if cnt is None: raise Unsupported("vector from a range of odd length")
                b.size = nb; st.mem.pop(b, None); s.memcpy(st, Ptr(b, 0, 1), A[1], nb); b.size = None; setln(cnt)
            elif isinstance(A[1], Ptr): raise Unsupported("vector from a range")
            elif len(A) == 4:
                setln(A[1]); st.mem[b] = Mem('arr', z3.K(IntS, s.lift(s.load(st, A[2], ety), ety)))
            else:
                setln(A[1]); st.mem[b] = Mem('arr', z3.K(IntS, s.lift(s.const(('zero',), ety), ety)))
            return None
        if meth == '~vector': return None
        if 'operator=(std::vector' in dem and dem.rstrip().endswith('&&)') and isinstance(A[1], Ptr):
            q = A[1]; k2 = ('vec', q.obj.id, q.byteoff()); c = s.memof(st, q.obj).d.get(('vec', q.byteoff())); b = buf()
            if k2 not in s.cache or c is None: raise Unsupported("move of an unknown vector")
            m = s.memof(st, s.cache[k2])
            st.mem[b] = m; s.logit(('stall', b, None, st.pc, None)); setln(c[1]); return A[0]
        if meth == 'size': return ln()
        if meth == 'empty': return s.ints.icmp('eq', ln(), 0, 64)
        if meth == 'push_back' or meth == 'emplace_back':
            v = s.load(st, A[1], ety, ins); b = buf(); n = ln(); s.store(st, Ptr(b, n, tsize(ety)), v, ety, ins); setln(s.ints.add(n, 1, 64)); return NULL
        if meth in ('operator[]', 'at'):
            b = buf()
            if ((s.check_bounds and not same(A[1], 0)) or s.check_vec) and not s.quiet: s.oblige("index into vector %s is below its size" % o.name, s.ints.icmp('ult', A[1], ln(), 64), st.pc, ('C14',))
            return Ptr(b, A[1], tsize(ety))
        if meth == 'data': return Ptr(buf(), 0, tsize(ety))
        if meth in ('reserve', 'clear', 'shrink_to_fit'):
            if meth == 'clear': setln(0)
            return None
        if meth == 'resize':
            setln(A[1]); return None
        return NOTHANDLED
    def memcpy(s, st, d, sr, n):
        if isc(n) and n == 0: return
        if isinstance(d, PtrIte) or isinstance(sr, PtrIte): raise Unsupported("memcpy of merged pointers")
        do, so = d.obj, sr.obj
        if so is None or do is None or so.kind == 'unknown' or do.kind == 'unknown': raise Unsupported("memcpy through unknown pointer")
        dm, sm = s.memof(st, do), s.memof(st, so)
        if isc(n) and sm.kind == 'cells' and dm.kind == 'cells':
            a, b = sr.byteoff(), d.byteoff(); dd = dict(dm.d)
            for k in [k for k in dd if isc(k) and b <= k < b + n]: del dd[k]
            for k, c in sm.d.items():
                if isc(k) and a <= k < a + n: dd[k - a + b] = c
                elif not isc(k): raise Unsupported("memcpy of vector object")
            st.mem[do] = Mem('cells', dd); s.logit(('cell', do, None, st.pc, None)); return
        if sm.kind == 'cells' and isc(n):  # into stream or array: one field at a time
            a = sr.byteoff()
            for k, (t, v) in sorted((k, c) for k, c in sm.d.items() if isc(k)):
                if a <= k < a + n: s.store(st, Ptr(do, padd(d.byteoff(), k - a), 1) if do.kind != 'arr' or True else d, v, t)
            return
        if dm.kind == 'cells':
            if not isc(n): raise Unsupported("variable memcpy into local")
            b = d.byteoff(); lay = s.layout(do, b, n)
            for k, t in lay: s.store(st, Ptr(do, k, 1), s.load(st, Ptr(so, padd(sr.byteoff(), k - b), 1), t), t)
            return
        if sm.kind == 'tok':
            t, k = s.tokfind(st, so, sm, sr.byteoff(), None, n)
            if t is None or not (isc(k) and k == 0) or t[3][0] != 'arr': raise Unsupported("memcpy out of a stream: offset %s len %s; fields %s" % (sr.byteoff(), n, [(str(x[1]), str(x[2]), x[3][0], len(x[0])) for x in sm.d]))
            pay = t[3]; s.oblige("array field of the length written is read", s.ints.icmp('eq', n, t[2], 64), st.pc, ('C13',))
            if dm.kind == 'raw': dm = s.to_arr(st, do, pay[1])
            es = tsize(pay[1]); q = s.rescale(d, es)
            s.logit(('stall', do, None, st.pc, None))
            if isc(q.idx) and q.idx == 0 and isc(pay[3]) and pay[3] == 0 and same(do.size, n): st.mem[do] = Mem('arr', pay[2]); return
            st.mem[do] = Mem('arr', s.copyterm(dm.d, pay[2], q.idx, pay[3], pay[4])); return
        if getattr(do, 'stream', False) or dm.kind == 'tok' or (dm.kind == 'raw' and s.isstream(do, d)):
            if sm.kind == 'tok':
                raise Unsupported("stream to stream copy")
            if sm.kind == 'raw': sm = s.to_arr(st, so, ('i', 8))
            es = tsize(so.ety); q = s.rescale(sr, es); cnt = div_exact(n, es)
            if q is None or cnt is None: raise Unsupported("array field size")
            s.tokstore(st, do, d.byteoff(), n, ('arr', so.ety, sm.d, q.idx, cnt, so)); return
        if sm.kind == 'raw' and dm.kind == 'raw': sm = s.to_arr(st, so, ('i', 8))
        if sm.kind == 'raw': sm = s.to_arr(st, so, do.ety)
        if dm.kind == 'raw': dm = s.to_arr(st, do, so.ety)
        if so.ety != do.ety or (dm.kind == 'arr' and hasattr(do, 'rawst') and not isc(n) and not same(d.byteoff(), 0)):
            if dm.kind == 'arr' and hasattr(do, 'rawst'): 
                es = tsize(so.ety); s.tokstore(st, do, d.byteoff(), n, ('arr', so.ety, sm.d, s.rescale(sr, es).idx, div_exact(n, es), so)); return
            raise Unsupported("memcpy between element types")
        es = tsize(do.ety); p, q = s.rescale(d, es), s.rescale(sr, es); cnt = div_exact(n, es)
        if p is None or q is None or cnt is None: raise Unsupported("memcpy alignment")
        if do.ro: s.oblige("input %s is not written" % do.name, False, st.pc, ('C20',))
        if s.check_bounds and not s.quiet:
            for o, x, w in ((do, p, 'memcpy to'), (so, q, 'memcpy from')):
                if o.size is not None:
                    nn = div_exact(o.size, es)
                    if nn is not None: s.oblige("%s within %s" % (w, o.name), band(s.ints.icmp('sge', x.idx, 0, 64), s.ints.icmp('sle', padd(x.idx, cnt), nn, 64)), st.pc, ('C14',))
        do.stored = True; s.logit(('stall', do, p.idx, st.pc, cnt))
        if isc(cnt) and cnt <= 16:
            A = dm.d; vs = [s.sel(sm.d, padd(q.idx, i)) for i in range(cnt)]
            for i, v in enumerate(vs): A = z3.Store(A, ZI(padd(p.idx, i)), s.lift(v, do.ety))
            st.mem[do] = Mem('arr', A); return
        if same(p.idx, 0) and same(q.idx, 0) and do.size is not None and same(do.size, n): st.mem[do] = Mem('arr', sm.d); return
        st.mem[do] = Mem('arr', s.copyterm(dm.d, sm.d, p.idx, q.idx, cnt))
    def copyterm(s, D, S, d, q, n):
        return z3.Function('copy_' + D.sort().range().name(), D.sort(), D.sort(), IntS, IntS, IntS, D.sort())(D, S, ZI(d), ZI(q), ZI(n))
    def isstream(s, o, d): return False
    def layout(s, o, off, n):
        def fl(t, b):
            if t[0] == 'a': return [x for i in range(t[1]) for x in fl(t[2], b + i*tsize(t[2]))]
            if t[0] == 's': return [x for i, u in enumerate(t[1]) for x in fl(u, b + foff(t, i))]
            return [(b, t)]
        return [(k, t) for k, t in fl(o.aty, 0) if off <= k < off + n]
    def memset(s, st, d, v, n):
        if isinstance(d, PtrIte): raise Unsupported("memset merged pointer")
        if not (isc(v) and v in (0,)): 
            if not isc(n) : raise Unsupported("memset value")
        o = d.obj; m = s.memof(st, o)
        if isc(n) and n == 0: return
        if m.kind == 'cells' and isc(n) and hasattr(o, 'aty'):
            dd = dict(m.d)
            for k, t in s.layout(o, d.byteoff(), n):
                dd[k] = (t, s.const(('zero',), t) if v == 0 else (v * int('01' * (t[1] // 8), 16) if t[0] == 'i' else UNDEF))
            st.mem[o] = Mem('cells', dd); s.logit(('cell', o, None, st.pc, None)); return
        if v != 0: raise Unsupported("memset value")
        o.stored = True; s.logit(('stall', o, None, st.pc, None))
        if m.kind == 'raw':
            if same(d.byteoff(), 0) and same(n, o.size): st.mem[o] = Mem('raw', {'fill': 0}); return
            raise Unsupported("partial memset of untyped memory")
        if m.kind == 'arr':
            es = tsize(o.ety); q = s.rescale(d, es); c = div_exact(n, es)
            if same(q.idx, 0) and same(n, o.size): st.mem[o] = Mem('arr', z3.K(IntS, s.lift(s.const(('zero',), o.ety), o.ety))); return
            z = s.lift(s.const(('zero',), o.ety), o.ety)
            st.mem[o] = Mem('arr', z3.Function('fill_' + m.d.sort().range().name(), m.d.sort(), IntS, IntS, m.d.sort().range(), m.d.sort())(m.d, ZI(q.idx), ZI(c), z)); return
        raise Unsupported("memset of " + m.kind)

class Phi(dict): tys = {}
def mkphi(k, v, ty): r = Phi({k: v}); r.tys = {k: ty}; return r
class PtrInt:
    def __init__(s, p): s.p = p
    def __eq__(s, o): return isinstance(o, PtrInt) and same(s.p, o.p)
class _D: pass
DEAD = _D(); NOTHANDLED = _D()
def z3_bv(x): return isinstance(x, z3.ExprRef) and z3.is_bv(x)

def cvc5_check(asr, timeout_ms):
    import subprocess, tempfile, os
    sv = z3.Solver()
    for a in asr: sv.add(ZB(a))
    txt = "(set-logic ALL)\n" + sv.to_smt2()
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False); f.write(txt); f.close()
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout_ms/1000 + 10).stdout.strip().split("\n")[0]
    except Exception as e: r = "error"
    os.unlink(f.name)
    return r if r in ('sat', 'unsat', 'unknown') else 'error'
from . import loops  # noqa: attaches Ex.loop
