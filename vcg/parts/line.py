"""Multi-level interpolation codec: one line of the grid. The compressor's line functions (along r1, along r2) and the decompressor's line function
run in lockstep. Positions on the line are split by parity: even positions are known before (read only), odd positions are coded here."""
import os, re, z3
from .. import ir
from ..sym import *
from ..exe import Ex, NOTHANDLED
from ..lock import Lock, final_facts
from ..loops import writes, subst
from ..ufo import UFO
from .cp2d import TU, NOINLINE, I32, recog
from .kernels import cell, buf, vcell, SN
P = ('C18', 'C08', 'C03')
NI = NOINLINE + ('derive_eb_abs_online_2d', 'sz3_cp_preserve_2d_predict', 'recoverI', 'quantize_and_overwrite', 'recover_pred')
STUB = os.path.join(os.path.dirname(TU), 'sz3stub.cpp')
def quantizer_contracts(ex, w, oncall=None):
    """contract of the quantizer: quantize_and_overwrite(data, pred, eb) and recover_pred(pred, code, eb)"""
    fp = ex.fp; T = ('f', w); S = 'f' if w == 32 else 'd'; ms = ir.extract(STUB); REC = z3.Function('reconstruct%d' % w, fp.sort(w), z3.IntSort(), fp.sort(w), z3.IntSort(), fp.sort(w))
    def radius(st, q): return ex.load(st, Ptr(q.obj, padd(q.byteoff(), 40), 1), I32)
    def quant(ex, fr, st, ins, A, dem):
        if len(A) != 4: raise Unsupported('overload of quantize_and_overwrite')
        rd = radius(st, A[0])
        if not ex.quiet: ex.oblige('quantize_and_overwrite is called within its precondition', z3.And(fp.num(A[3]), fp.o(A[3]) >= 0, ZI(rd) >= 1, ZI(rd) <= 1 << 24), st.pc, P)
        if oncall and not ex.quiet: oncall(st, A)
        s2, r = ex.call_func(ms.func('sz3_quantize_' + S), ms, A, State(st.pc, dict(st.mem)), fr.path + ('quantize', ins.name or str(id(ins)))); st.pc, st.mem = s2.pc, s2.mem; return r
    def code(ex, fr, st, ins, A, dem):
        q, data, pred, eb = A; c = ex.ints.fresh('code', 32); rd = ZI(radius(st, q))
        ex.fact(z3.And(c >= 0, c <= 2*rd - 1, z3.Implies(fp.o(eb) == 0, c == 0)), 'contract of quantize_and_overwrite')
        v = REC(pred, c, eb, rd); d = fp.un('fabs', fp.bin('fsub', v, data, w), w); ex.fact(z3.Implies(c > 0, z3.And(fp.num(v), fp.cmp('ole', d, eb, w))), 'contract of quantize_and_overwrite'); return c
    def push(ex, fr, st, ins, A, dem):
        return ex.stdvec(fr, st, ins, [Ptr(A[0].obj, padd(A[0].byteoff(), 8), 1), A[1]], 'std::vector<%s, std::allocator<%s> >::push_back' % ((SN[S],) * 2))
    def rec(ex, fr, st, ins, A, dem): return REC(A[1], ZI(A[2]), A[3], ZI(radius(st, A[0])))
    ex.contracts += [(re.compile('quantize_and_overwrite'), quant), (re.compile('recover_pred|sz3_rec_'), rec), (re.compile('sz3_code_'), code), (re.compile('sz3_push_'), push)]
class Lens(Ex):
    """arrays addressed as base + m*stride: position m, split by parity"""
    def split(s, st, p, es):
        o = p.obj; q = s.rescale(p, es); base, stride, even, odd = o.lens; d = psub(q.idx, base); pl = poly(d) if not isc(d) else ({(): (d, ())} if d else {}); r = {}
        for m, (c, fs) in pl.items():
            f = [x for x in fs if not x.eq(stride)]
            if len(fs) - len(f) != 1: raise Unsupported("position %s of %s is not a multiple of the stride" % (d, o.name))
            t = z3.IntVal(c)
            for x in f: t = t * x
            for k, v in poly(t).items(): r[k] = (r.get(k, (0,))[0] + v[0], v[1])
        m = unpoly({k: v for k, v in r.items() if v[0]})
        return m, even, odd
    def half(s, st, m):
        pl = poly(m) if not isc(m) else {(): (m, ())}; c0 = pl.get((), (0,))[0]
        if all(c % 2 == 0 for k, (c, _) in pl.items() if k != ()): b = c0 % 2
        elif s.holds(ZI(m) % 2 == 1, st.pc): b = 1
        elif s.holds(ZI(m) % 2 == 0, st.pc): b = 0
        elif s.quiet: return None, None      # exploring: the shape of the loop is not known yet
        else: raise Unsupported("parity of position %s" % (m,))
        h = div_exact(psub(m, b), 2)
        if h is None:
            k = ('half', norm(m).get_id())
            if k not in s.cache: h = z3.Int(s.fresh_name('half')); s.cache[k] = h; s.keep.append(norm(m)); s.fact(z3.And(2*h <= ZI(m), ZI(m) < 2*h + 2), 'half')
            h = s.cache[k]
        return b, h
    def split2(s, st, p, ty):
        m, e, o = s.split(st, p, tsize(ty)); b, h = s.half(st, m)
        if b is None: return Ptr(o, s.ints.fresh('half', 64), tsize(ty))
        return Ptr(o if b else e, h, tsize(ty))
    def load(s, st, p, ty, ins=None):
        if isinstance(p, Ptr) and getattr(p.obj, 'lens', None): p = s.split2(st, p, ty)
        return Ex.load(s, st, p, ty, ins)
    def store(s, st, p, v, ty, ins=None):
        if isinstance(p, Ptr) and getattr(p.obj, 'lens', None): p = s.split2(st, p, ty)
        return Ex.store(s, st, p, v, ty, ins)
def run(rep, which='r2', S='f', only=None):
    rep.assume("derive_eb_abs_online_2d: a number between 0 and the bound it is given (part derivenum)", "eb_exponential_quantize: contract of part ebq", "powers of two between 2^-52 and the bound are exact in the element type",
               "floating point: uninterpreted operations with the order axioms of vcg/ufo.py (part fpax)", "finite field and bound; stride >= 1; the line lies inside the array (part levels)")
    for nm, cond in CASES:
        if only and nm.split()[-1] not in only: continue
        ex = None
        def keep(e): nonlocal ex; ex = e; e.case = cond
        pre = 'sz3_cp_preserve_2d_predict_%s / recover <%s>, %s' % (which, SN[S], nm)
        try: run1(rep, which, S, keep)
        except Unsupported as e: rep.undecided('%s: %s' % (pre, e))
        if ex is not None: rep.from_ex(ex, pre)
CASES = [('line of at most 1', lambda n: n <= 1), ('line of 2 or 4', lambda n: z3.Or(n == 2, n == 4)), ('line of 3', lambda n: n == 3), ('long even', lambda n: z3.And(n >= 5, n % 2 == 0)), ('long odd', lambda n: z3.And(n >= 5, n % 2 == 1))]
def run1(rep, which, S, keep):
    w = 32 if S == 'f' else 64; b = w // 8; T = ('f', w); m = ir.extract(TU, noinline=NI); ty = SN[S]
    fE = m.func(ir.find(m, r'sz3_cp_preserve_2d_predict_%s<%s>\(' % (which, ty))); fD = m.func(ir.find(m, r'void recover<%s>\(' % ty)); rep.fn('sz3_cp_preserve_2d_predict_%s<%s>' % (which, ty), 'recover<%s>' % ty)
    ex = Lens(fp=UFO, ints=IntMath, timeout=20000); keep(ex); ex.clprops = P; ex.mono = True; ex.check_bounds = True; ex.prune = {'n'}; fp = ex.fp
    n, stride, ist, j, r1, r2 = [z3.Int(x) for x in ('n', 'stride', 'i_stride', 'j', 'r1', 'r2')]; [ex.ints.nnv.add(x) for x in ('n', 'stride', 'i_stride', 'j', 'r1', 'r2')]
    ex.fact(z3.And(n >= 0, n < 1 << 31, stride >= 1, ist >= 1, j >= 0, r1 >= 1, r2 >= 1), 'pre'); st = State(); ex.fact(ex.case(n), 'case')
    hn = z3.Int('odd_positions'); ex.fact(z3.And(2*hn <= n, n < 2*hn + 2), 'pre'); ex.ints.nnv.add('odd_positions'); he = psub(n, hn)
    # the line of each component
    L = {}; even = {}; odd = {}; base = {}
    for X in 'UV':
        even[X] = Obj('%s_known' % X, 'arr', pmul(b, he), T); even[X].init = z3.Const('%s_known' % X, ex.arrsort(T)); even[X].ro = True; bz = z3.Int('base_' + X); base[X] = bz
        for side in 'ed':
            o = Obj('%s_%s' % (X, side), 'arr', None, T); od = Obj('%s_coded_%s' % (X, side), 'arr', pmul(b, hn), T); od.init = z3.Const('%s_odd_%s' % (X, side), ex.arrsort(T)); o.lens = (bz, stride, even[X], od); o.init = z3.Const('%s_whole_%s' % (X, side), ex.arrsort(T)); o.ety = T
            L[X, side] = o; odd[X, side] = od
        for A in (even[X].init, odd[X, 'e'].init): ex.summ[A.decl().name()] = lambda i, t: ex.fact(fp.fin(t), 'finite field')
    # code arrays and cursors
    q0, e0, u0 = [z3.Int(x) for x in ('quant_count', 'eb_count', 'verbatim_count')]; [ex.ints.nnv.add(x) for x in ('quant_count', 'eb_count', 'verbatim_count')]
    ex.fact(z3.And(q0 >= 0, e0 >= 0, u0 >= 0, q0 + 2*hn < 1 << 31), 'pre')
    Q = Obj('quantization', 'arr', pmul(4, padd(q0, pmul(2, hn))), I32); Q.init = z3.Const('quantization', ex.arrsort(I32)); E = Obj('eb_quant_index', 'arr', pmul(4, padd(e0, hn)), I32); E.init = z3.Const('eb_quant_index', ex.arrsort(I32))
    qc = cell(ex, st, 'quant_count', I32, q0); ep = cell(ex, st, 'eb_quant_index_pos', ('p',), Ptr(E, e0, 4))
    quant = Obj('quantizer', 'cells', 56); rad = 32768; st.mem[quant] = Mem('cells', {('vec', 8): (('i', 64), u0), 32: (('i', 64), 0), 40: (('i', 32), rad)})
    eb = fp.fresh('eb', 64); ex.fact(z3.And(fp.fin(eb), fp.o(eb) >= 0, fp.o(eb) < 2 ** 127), 'pre'); thr = fp.const(ir_bits(2.0 ** -52), 64); lob = fp.un('log2', fp.fromint(4, 64), 64)
    seen = []
    def derive(ex, fr, s, ins, A, dem):
        v = fp.fresh('tolerance', 64); ex.fact(z3.And(fp.num(v), fp.o(v) >= 0, fp.o(v) <= fp.o(A[6])), 'contract of derive_eb_abs_online_2d')
        mU, _, _ = ex.split(s, A[0], b); mV, _, _ = ex.split(s, A[1], b); row, col = (A[2], A[3]) if which == 'r2' else (A[3], A[2])
        if not ex.quiet:
            ex.oblige('the tolerance is derived at the vertex that is coded', z3.And(ZI(mU) == ZI(mV), ZI(row) == ZI(mU)*ist, ZI(col) == j), s.pc, ('C04', 'C06'))
            ex.oblige('the tolerance is derived with the tables of the incident triangles', isinstance(A[7], Ptr) and isinstance(A[8], Ptr) and A[7].obj is io and A[8].obj is of and same(A[7].byteoff(), 0) and same(A[8].byteoff(), 0) and not s.mem[io].d and not s.mem[of].d, s.pc, ('C04', 'C06'))
            ex.oblige('the tolerance is derived from the right grid and bound', same(A[4], r1) and same(A[5], r2) and (isinstance(A[6], z3.ExprRef) and A[6].eq(eb)), s.pc, ('C03', 'C04', 'C06'))
        seen.append((v, mU, s.pc)); return v
    def ebq(ex, fr, s, ins, A, dem):
        p, ba, lo, th = A; cur = ex.load(s, p, ('f', 64)); r = ex.ints.fresh('eb_index', 32); zero = fp.const(0, 64); v = fp.bin('fmul', fp.bin2('pow', fp.fromint(ba, 64), fp.fromint(r, 64), 64), th, 64)
        if not ex.quiet: ex.oblige('eb_exponential_quantize is called within its precondition', isc(ba) and ba == 4 and th.eq(thr) and lo.eq(lob), s.pc, ('C07',))
        new = z3.If(r == 0, zero, v); ex.fact(z3.And(r >= 0, r <= 1076, z3.Implies(r > 0, z3.And(fp.cmp('ole', v, cur, 64), fp.cmp('ogt', v, zero, 64)))), 'contract of eb_exponential_quantize')
        if w == 32: t = fp.trunc(v, 64, 32); ex.fact(z3.Implies(z3.And(r > 0, fp.o(v) < 2 ** 127), fp.ext(t, 32, 64) == v), 'powers of two are exact')
        ex.store(s, p, new, ('f', 64)); return r
    ex.contracts += [(re.compile('derive_eb_abs_online_2d'), derive), (re.compile('eb_exponential_quantize'), ebq)]
    coded = []
    def oncall(s, A):
        if not seen: raise Unsupported('a value is coded before a tolerance is derived')
        v, mU, _ = seen[-1]; X = 'U' if A[1].obj is L['U', 'e'] else 'V'; mm, _, _ = ex.split(s, A[1], b); coded.append((X, mm))
        ex.oblige('the coded value belongs to the vertex the tolerance was derived for', A[1].obj is L[X, 'e'] and ex.ints.icmp('eq', mm, mU, 64), s.pc, ('C04', 'C06', 'C18'))
        ex.oblige('the tolerance handed to the quantizer is at most the derived one', z3.And(fp.num(A[3]), fp.o(A[3]) <= fp.o(v), fp.o(A[3]) <= fp.o(eb)), s.pc, ('C03', 'C04', 'C06', 'C07', 'C18'))
    quantizer_contracts(ex, w, oncall)
    io, of = Obj('index_offset', 'cells', 96), Obj('offsets', 'cells', 28); st.mem[io] = Mem('cells', {}); st.mem[of] = Mem('cells', {})
    pU, pV = Ptr(L['U', 'e'], base['U'], b), Ptr(L['V', 'e'], base['V'], b)
    a2 = [j, ist] if which == 'r1' else [ist, j]
    s2, _ = ex.call_func(fE, m, [pU, pV, n, stride] + a2 + [r1, r2, Ptr(Q, 0, 4), qc, ep, 4, lob, thr, eb, Ptr(quant, 0, 1), Ptr(io, 0, 1), Ptr(of, 0, 1)], st, ())
    recs = ex.recs[-1]; vb = ex.cache.get(('vec', quant.id, 8)); nv = s2.mem[quant].d[('vec', 8)][1]
    ex.oblige('encoder: two codes per odd position', ex.ints.icmp('eq', vcell(s2, qc), padd(q0, pmul(2, hn)), 64), s2.pc, P)
    ec = vcell(s2, ep); ex.oblige('encoder: one tolerance index per odd position', ec.obj is E and ex.ints.icmp('eq', ec.idx, padd(e0, hn), 64), s2.pc, P)
    for o in [Q, E, odd['U', 'e'], odd['V', 'e']] + ([vb] if vb is not None else []):
        for R in recs:
            if writes(R, o): ok = R.P.bm is None or hasattr(R, 'exit') and final_facts(ex, R, o, R.exit.st.mem[o].d if o in R.exit.st.mem else o.init); recog(ex, 'encoder: %s is written at increasing positions' % o.name, ok is not False, (), P)
    # every coded value: kept bit for bit or not farther than the bound from the original (in every iteration)
    # decoder
    ex.mono = False; ex.recs.append([]); ex.logs.append([]); sd = State(s2.pc, {o: mm for o, mm in s2.mem.items()})
    Qd = Obj('quantization_d', 'arr', Q.size, I32); Qd.init = ex.memof(s2, Q).d; Qd.ro = True; Ed = Obj('eb_quant_index_d', 'arr', E.size, I32); Ed.init = ex.memof(s2, E).d; Ed.ro = True
    qd = cell(ex, sd, 'quant_count_d', I32, q0); ed = cell(ex, sd, 'eb_pos_d', ('p',), Ptr(Ed, e0, 4)); tot = z3.Int('verbatim_total'); ex.fact(tot >= ZI(nv), 'the verbatim values of the whole field include those of this line')
    quant2 = Obj('quantizer_d', 'cells', 56); sd.mem[quant2] = Mem('cells', {('vec', 8): (('i', 64), tot), 32: (('i', 64), u0), 40: (('i', 32), rad)})
    if vb is not None:
        vd = Obj('verbatim_d', 'arr', None, T); vd.init = ex.memof(s2, vb).d; ex.cache[('vec', quant2.id, 8)] = vd
    lk = Lock(ex, recs, [Q, E]); lk.props = P; ex.match = lk
    s3, _ = ex.call_func(fD, m, [Ptr(L['U', 'd'], base['U'], b), Ptr(L['V', 'd'], base['V'], b), n, Ptr(Qd, 0, 4), qd, stride, Ptr(quant2, 0, 1), ed, 4, thr], sd, ()); ex.match = None
    if os.environ.get('CPDBG'): print(lk.matched, lk.why)
    x = z3.Int('any_odd_position'); ex.ints.nnv.add('any_odd_position'); inr = (x >= 0, x < hn)
    for X in 'UV':
        A, B = ex.memof(s2, odd[X, 'e']).d, ex.memof(s3, odd[X, 'd']).d
        ex.oblige('decoder: every odd position of %s comes back as the compressor left it' % X, ex.sel(B, x) == ex.sel(A, x), s3.pc + inr, P + ('C13', 'C01'))
    ex.oblige('decoder: reads as many codes as were written', ex.ints.icmp('eq', vcell(s3, qd), vcell(s2, qc), 64), s3.pc, P + ('C13',))
    e3 = vcell(s3, ed); ex.oblige('decoder: reads as many tolerance indices as were written', e3.obj is Ed and ex.ints.icmp('eq', e3.idx, ec.idx, 64), s3.pc, P + ('C13',))
    ex.oblige('decoder: consumes as many verbatim values as were stored', ex.ints.icmp('eq', s3.mem[quant2].d[32][1], nv, 64), s3.pc, P + ('C13',))
def ir_bits(x):
    import struct; return struct.unpack('<Q', struct.pack('<d', x))[0]
