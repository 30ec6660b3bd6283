"""Block kernels: each encoder kernel against the decoder kernel that undoes it, in lockstep, for blocks of any size.
The scalar kernels quantize / recover are represented by their contracts (proved in part `kernels`); the arithmetic of the
predictors is uninterpreted, so 'the decoder sees the same prediction' means: the same operations on the same bits."""
import os, re, z3
from .. import ir
from ..sym import *
from ..exe import Ex, NOTHANDLED
from ..lock import Lock, final_facts
from .kernels import cell, buf, vcell, SN
TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tu', 'blocks.cpp')
I32 = ('i', 32)
KERNELS = {  # name: (encoder, decoder, dimensions)
 'reg2d': ('block_pred_and_quant_regression_2d_with_buffer', 'block_pred_and_decompress_regression_2d_with_buffer', 2),
 'lor2d': ('block_pred_and_quant_lorenzo_2d', 'block_pred_and_decompress_lorenzo_2d', 2),
 'lor2deb': ('block_pred_and_quant_lorenzo_2d_with_eb', 'block_pred_and_decompress_lorenzo_2d_with_eb', 2),
 'reg3d': ('block_pred_and_quant_regression_3d', 'block_pred_and_decompress_regression_3d', 3),
 'reg3db': ('block_pred_and_quant_regression_3d_with_buffer', 'block_pred_and_decompress_regression_3d_with_buffer', 3),
 'lor3d': ('block_pred_and_quant_lorenzo_3d', 'block_pred_and_decompress_lorenzo_3d', 3),
}
P = ('C01', 'C08', 'C13', 'C15', 'C17')
PB = ('C01', 'C08')
class Scalars:
    """contracts of quantize and recover, as proved in part `kernels`"""
    def __init__(s, ex, w):
        s.ex, s.w = ex, w; F = ex.fp.S
        s.REC = z3.Function('reconstruct', F[32], F[64], IntS, IntS, F[w]); s.W = z3.Function('within', F[w], F[w], F[64], z3.BoolSort()); s.T = ('f', w)
        ex.contracts.append((re.compile(r'^(inline )?int quantize<'), s.quantize)); ex.contracts.append((re.compile(r'(float|double) recover<'), s.recover))
    def quantize(s, ex, fr, st, ins, A, dem):
        pred, cur, prec, cap, rad, uref = A[:6]; c = ex.ints.fresh('code', 32); rec = s.REC(pred, prec, ZI(c), ZI(rad)); capz, radz = ZI(cap), ZI(rad)
        ex.oblige('quantize is called within its precondition', z3.And(capz >= 1, radz >= 1, capz <= 2 * radz, radz <= 1 << 24), st.pc, ('C14', 'C08'))
        half = z3.Int(ex.fresh_name('half')); ex.fact(z3.And(2 * half <= capz - 1, capz - 1 <= 2 * half + 1), 'definition of (capacity-1)/2')
        ex.fact(z3.Or(c == 0, z3.And(c >= 1, c >= radz - half, c <= radz + half, s.W(rec, cur, prec))), 'contract of quantize')
        u = ex.load(st, uref, ('p',)); z = c == 0; f = st.fork(z); ex.store(f, u, cur, s.T); ex.store(f, uref, Ptr(u.obj, padd(u.idx, 1), u.es), ('p',))
        for o in list(f.mem):
            if f.mem[o] is not st.mem.get(o): st.mem[o] = ex.memite(z, f.mem[o], st.mem.get(o) or ex.memof(st, o), o)
        if len(A) > 6: ex.store(st, A[6], z3.If(z, cur, rec), s.T)
        return c
    def recover(s, ex, fr, st, ins, A, dem):
        mean = None
        if 'meanInfo' in dem: mean, A = A[0], A[1:]
        pred, prec, code, rad, uref = A; code = ZI(code); z = code == 0; u = ex.load(st, uref, ('p',)); f = st.fork(z); v = ex.load(f, u, s.T)
        ex.store(st, uref, Ptr(u.obj, padd(u.idx, z3.If(z, 1, 0)), u.es), ('p',)); r = s.REC(pred, prec, code, ZI(rad))
        if mean is not None:
            use, mv = s.meanparts(st, mean); r = z3.If(z3.And(code == 1, use), mv, r)
        return z3.If(z, v, r)
    def meanparts(s, st, mp):
        d = st.mem[mp.obj].d; return d[0][1] == 1, d[s.w // 8][1]
def run(rep, S=None, only=None):
    for x in S or 'fd':
        for k in KERNELS:
            if only in (None, k): pair(rep, k, x)
def pair(rep, name, S):
    enc, dec, nd = KERNELS[name]; w = 32 if S == 'f' else 64; b = w // 8; T = ('f', w); m = ir.extract(TU, noinline=('quantize', 'recover'))
    fE = m.func(ir.find(m, r'^void %s<%s>\(' % (enc, SN[S]))); fD = m.func(ir.find(m, r'^void %s<%s>\(' % (dec, SN[S]))); rep.fn('%s<%s>' % (enc, SN[S]), '%s<%s>' % (dec, SN[S]))
    rep.assume("predictor arithmetic uninterpreted: equal operations on equal bits give equal bits (one compiler, one set of flags for both directions)", "index arithmetic of the block kernels does not wrap")
    ex = Ex(fp=UF, ints=IntMath, timeout=20000); sc = Scalars(ex, w)
    def nni(n): x = z3.Int(n); ex.ints.nnv.add(n); ex.fact(x >= 0, 'pre'); return x
    sx, sy, sz = nni('size_x'), nni('size_y'), nni('size_z'); sizes = [sx, sy, sz][:nd]; bd = [nni('buffer_dim%d' % i) for i in range(nd - 1)]; dd = [nni('dim%d' % i) for i in range(nd - 1)]
    u0, t0, y0, x0, b0, p0 = [nni(n) for n in ('u0', 't0', 'y0', 'x0', 'b0', 'p0')]; rad = z3.Int('intv_radius'); use = z3.Bool('use_mean')
    DATA, REG, BUF, TYPE, UN, PR = buf(ex, 'data', T), buf(ex, 'reg', ('f', 32)), buf(ex, 'buffer', T), buf(ex, 'type', I32), buf(ex, 'unpredictable', T), buf(ex, 'precisions', ('f', 64))
    ex.fact(z3.And(rad >= 2, rad <= 1 << 24), 'pre'); cap = 2 * rad; lor = name.startswith('lor'); eb = name.endswith('eb'); hasbuf = name != 'reg3d'
    if lor: cap = z3.If(use, cap - 2, cap)
    cap_ = z3.Int('capacity'); ex.fact(cap_ == cap, 'pre'); prec = ex.fp.fresh('precision', 64); mean = ex.fp.fresh('mean', w)
    def mobj(st):
        o = Obj('meanInfo', 'cells', 8 if w == 32 else 16); st.mem[o] = Mem('cells', {0: (('i', 8), z3.If(use, 1, 0)), b: (T, mean)}); o.ro = True; return Ptr(o)
    for o in (DATA, REG, PR): o.ro = True
    st = State(); tp = cell(ex, st, 'type_pos', ('p',), Ptr(TYPE, t0, 4)); up = cell(ex, st, 'unpredictable_pos', ('p',), Ptr(UN, u0, b))
    pr = Ptr(PR, p0, 8) if eb else prec
    A = ([mobj(st)] if lor else []) + [Ptr(DATA, y0, b)] + ([] if lor else [Ptr(REG, 0, 4)]) + ([Ptr(BUF, b0, b)] if hasbuf else []) + [pr, cap_, rad] + sizes + (bd if hasbuf else []) + dd + [tp, up]
    s2, _ = ex.call_func(fE, m, A, st, ()); recs = ex.recs[-1]; tot = sizes[0]
    for x in sizes[1:]: tot = pmul(tot, x)
    ex.oblige('encoder: one code per point of the block', ex.ints.icmp('eq', vcell(s2, tp).idx, padd(t0, tot), 64), s2.pc, P)
    FT, FU = ex.freshA('types', I32), ex.freshA('unpred', T)
    ok = [final_facts(ex, R, o, F) for o, F in ((TYPE, FT), (UN, FU)) for R in recs]
    ex.oblige('encoder: codes and verbatim values are only appended', all(ok), (), P)
    ex.recs.append([]); ex.logs.append([])
    def clone(nm, ety, A0):
        o = buf(ex, nm, ety); o.init = A0; return o
    OUT, BUF2, TYPE2, UN2 = buf(ex, 'output', T), clone('dec_buffer', T, BUF.init), clone('codes', I32, FT), clone('verbatim', T, FU); TYPE2.ro = UN2.ro = True
    sd = State(); tp2 = cell(ex, sd, 'type_pos', ('p',), Ptr(TYPE2, t0, 4)); up2 = cell(ex, sd, 'unpredictable_pos', ('p',), Ptr(UN2, u0, b)); lk = Lock(ex, recs, [TYPE]); lk.props = P; ex.match = lk; stored = []
    def hook(lk, R, Pd, Rd, fr):
        if ex.quiet: return
        for e in Pd.log:
            if e[0] == 'loop': Rd_in = e[1]; continue
            if e[0] == 'stall' and e[1] is OUT: ex.oblige('decoder: output written point by point', False, Pd.bm[0].pc, P)
            if e[0] == 'st' and e[1] is OUT:
                off = psub(e[2], x0); v = e[4]; cur = ex.sel(DATA.init, padd(y0, off)); p = ex.sel(PR.init, padd(p0, off)) if eb else prec; good = [v == cur, sc.W(v, cur, p)]
                if lor:
                    df = ex.fp.abs(ex.fp.bin('fsub', cur, mean, w), w); df = df if w == 64 else ex.fp.ext(df, 32, 64); good.append(z3.And(use, v == mean, ZB(ex.fp.cmp('olt', df, p, 64))))
                ex.oblige('each output value is the input value, or within the tolerance of it', z3.Or(*good), tuple(e[3]) + tuple(R.P.bm[0].pc), PB)
                stored.append((off, e[3]))
    lk.hook = hook
    A = ([mobj(sd)] if lor else []) + ([] if lor else [Ptr(REG, 0, 4)]) + ([Ptr(BUF2, b0, b)] if hasbuf else []) + [pr, rad] + sizes + (bd if hasbuf else []) + dd + [tp2, up2, Ptr(OUT, x0, b)]
    s3, _ = ex.call_func(fD, m, A, sd, ()); ex.match = None; top = [R for R in ex.recs[-1] if getattr(R, 'dec', False)]
    ex.oblige('decoder: every loop runs in step with the encoder', len(top) == 1 and len(lk.matched) == nd and len(stored) == 1, (), P)
    # which offsets the decoder writes: the row-major points of the block, one per iteration
    ns = []; R = top[0] if top else None
    while R is not None:
        ns.append(R); nx = [c for c in R.children if getattr(c, 'dec', False)]; R = nx[0] if nx else None
    if len(ns) == nd and stored:
        want = ns[-1].n
        for x, r in zip(dd, ns): want = padd(want, pmul(x, r.n))
        ex.oblige('decoder: iteration (i,j,k) writes output point i*dim0 + j*dim1 + k', ex.ints.icmp('eq', stored[0][0], want, 64), stored[0][1], P)
        for r, x, ax in zip(ns, sizes, 'xyz'):
            N = getattr(r, 'enc').N; ex.oblige('the loop over %s visits every index below size_%s' % (ax, ax), N is not None and ex.ints.icmp('eq', N, x, 64), (), P)
    ex.oblige('decoder: as many codes read as written', ex.ints.icmp('eq', vcell(s3, tp2).idx, vcell(s2, tp).idx, 64), s3.pc, P)
    ex.oblige('decoder: as many verbatim values read as written', ex.ints.icmp('eq', vcell(s3, up2).idx, vcell(s2, up).idx, 64), s3.pc, P)
    if hasbuf: ex.oblige('decoder: prediction buffer ends with the bits of the encoder', s3.mem[BUF2].d.eq(s2.mem[BUF].d) or s3.mem[BUF2].d == s2.mem[BUF].d, s3.pc, P)
    if hasattr(lk, 'why'): rep.note('; '.join(lk.why)[:500]) if hasattr(rep, 'note') and lk.why else None
    rep.from_ex(ex, '%s / %s <%s>' % (enc, dec, SN[S]))
