"""Block traversals: compressor and decompressor of the block-wise codecs visit the same blocks, in the same order, with the same arguments.
Block kernels, regression and selection are represented by their contracts; a call of an encoder kernel leaves a token that stands
for the codes and verbatim values it appended; the decoder kernel that meets the token must be called with the recorded arguments."""
import os, re, z3
from .. import ir
from ..sym import *
from ..exe import Ex, NOTHANDLED
from ..lock import Lock, final_facts
from .kernels import cell, buf, vcell, SN
TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tu', 'trav.cpp')
NOINLINE = ('block_pred_and', 'compute_regression', 'compress_regression', 'sz_blockwise_selection', 'quantize', 'recover')
I32 = ('i', 32)
P = ('C01', 'C13', 'C17'); PM = ('C14',)
CODECS = {  # name: encoder, decoder, dimensions, per-point tolerances, buffer spanning the rows, templates
 '2d': ('prediction_and_quantization_2d_with_border_prediction', 'prediction_and_decompression_2d_with_border_prediction', 2, False, True, 'f'),
 '2deb': ('prediction_and_quantization_2d_with_border_prediction_with_eb', 'prediction_and_decompression_2d_with_border_prediction_with_eb', 2, True, True, 'fd'),
 '3d': ('prediction_and_quantization_3d', 'prediction_and_decompression_3d', 3, False, False, 'fd'),
 '3db': ('prediction_and_quantization_3d_with_border_prediction', 'prediction_and_decompression_3d_with_border_prediction', 3, False, True, 'fd'),
}
def run(rep, name=None, S=None):
    for k, c in CODECS.items():
        for x in c[5]:
            if name in (None, k) and S in (None, x): pair(rep, k, x)
class Trav:
    def __init__(s, ex, nd, S): s.ex, s.nd, s.K, s.w = ex, nd, nd + 1, 32 if S == 'f' else 64; s.b = s.w // 8; s.T = ('f', s.w); s.pr = {}; s.calls = []; s.kinds = {}
    def proj(s, name, sort): return s.pr.setdefault(name, z3.Function('arg_' + name, IntS, sort))
    def args(s, A, dem, st, enc):
        """the arguments of a kernel call by role"""
        ex = s.ex; lor = 'lorenzo' in dem; eb = '_with_eb' in dem; nd = s.nd; a = list(A); d = {}
        hasbuf = not ('regression_3d' in dem and 'with_buffer' not in dem)
        mean = a.pop(0) if lor else None
        data = a.pop(0) if enc else None
        reg = None if lor else a.pop(0)
        B = a.pop(0) if hasbuf else None
        pr = a.pop(0); cap = a.pop(0) if enc else None; rad = a.pop(0)
        sizes = [ZI(a.pop(0)) for _ in range(nd)]; bd = [a.pop(0) for _ in range(nd - 1)] if hasbuf else []; dd = [a.pop(0) for _ in range(nd - 1)]
        tp, up = a.pop(0), a.pop(0)
        if not enc: data = a.pop(0)
        kind = re.sub(r'^(void )?block_pred_and_(quant|decompress)_', '', dem.split('<')[0]); s.kinds.setdefault(kind, len(s.kinds)); d['kernel'] = s.kinds[kind]
        if lor:
            mm = st.mem[mean.obj].d; d['use_mean'] = mm[0][1]; d['mean'] = mm[s.b][1]
        else:
            for i in range(s.K): d['coefficient%d' % i] = ex.load(st, Ptr(reg.obj, padd(reg.idx, i), 4), ('f', 32))
        if eb: s.prec = (pr, data)
        else: d['precision'] = pr
        d['radius'] = rad
        for i, x in enumerate(sizes): d['size_' + 'xyz'[i]] = x
        for i, x in enumerate(bd): d['buffer_dim%d' % i] = x
        for i, x in enumerate(dd): d['dim%d' % i] = x
        if hasbuf:
            m = ex.memof(st, B.obj)
            if m.kind == 'raw': m = ex.to_arr(st, B.obj, s.T)
            d['buffer'] = m.d; B = ex.rescale(B, s.b); d['buffer_pos'] = B.idx
        t = ex.load(st, tp, ('p',)); u = ex.load(st, up, ('p',)); d['type_pos'], d['unpredictable_pos'] = ex.rescale(t, 4).idx, ex.rescale(u, s.b).idx
        n = sizes[0]
        for x in sizes[1:]: n = pmul(n, x)
        return d, dict(lor=lor, eb=eb, B=B, pr=pr, cap=cap, rad=rad, sizes=sizes, bd=bd, dd=dd, tp=tp, up=up, t=t, u=u, data=data, n=n, kind=kind)
    def srt(s, v): return v.sort() if isinstance(v, z3.ExprRef) else IntS
    def effect(s, st, o, tok, du):
        ex = s.ex
        if o['B'] is not None:
            st.mem[o['B'].obj] = Mem('arr', s.proj('buffer_after', ex.arrsort(s.T))(tok)); o['B'].obj.stored = True; ex.logit(('stall', o['B'].obj, None, st.pc, None))
        ex.store(st, o['tp'], Ptr(o['t'].obj, padd(o['t'].idx, o['n']), o['t'].es), ('p',)); ex.store(st, o['up'], Ptr(o['u'].obj, padd(o['u'].idx, du), o['u'].es), ('p',))
    def common(s, st, o, off, who):
        """memory: the hull of the accesses of a kernel lies in its arrays (offsets of the last point touched)"""
        ex = s.ex; sz = o['sizes']; last = sz[-1]; dim = list(o['dd'])
        for x, y in zip(dim, sz): last = padd(last, pmul(x, psub(y, 1)))
        ex.oblige('%s: every size is positive' % who, z3.And(*[ZI(x) >= 1 for x in sz]), st.pc, P + PM)
        ex.oblige('%s: the points of the block lie in the data' % who, z3.And(ZI(off) >= 0, ZI(padd(off, last)) <= ZI(s.total)), st.pc, P + PM, extra=s.hints(o))
        if o['B'] is not None:
            last = padd(o['B'].idx, sz[-1])
            for x, y in zip(o['bd'], sz): last = padd(last, pmul(x, y))
            cap = div_exact(o['B'].obj.size, s.b) if o['B'].obj.size is not None else None
            ex.oblige('%s: the block and its neighbours lie in the prediction buffer' % who, cap is not None and z3.And(ZI(o['B'].idx) >= 0, ZI(last) < ZI(cap)), st.pc, PM, extra=s.hints(o))
        if o['eb']:
            ex.oblige('%s: the tolerances used are those of the points of the block' % who, o['pr'].obj is s.PR and ex.ints.icmp('eq', psub(ex.rescale(o['pr'], 8).idx, s.p0), off, 64), st.pc, P)
    def hints(s, o): return ()
    def encode(s, ex, fr, st, ins, A, dem):
        d, o = s.args(A, dem, st, True); tok = z3.Int(ex.fresh_name('block')); off = psub(ex.rescale(o['data'], s.b).idx, s.y0); d['data_offset'] = off
        for k, v in d.items(): ex.fact(s.proj(k, s.srt(v))(tok) == (ZI(v) if isc(v) else v), 'block token')
        du = s.proj('verbatim_count', IntS)(tok); ex.fact(du >= 0, 'contract of the block kernels')
        cap = 2 * ZI(o['rad']); cap = z3.If(ZI(d['use_mean']) == 1, cap - 2, cap) if o['lor'] else cap
        ex.oblige('encoder: kernel called within its precondition (alphabet)', z3.And(ZI(o['cap']) == cap, ZI(o['rad']) >= 2, ZI(o['rad']) <= 1 << 24), st.pc, P + PM); s.common(st, o, off, 'encoder')
        c = ex.load(st, s.cc, ('p',)); ex.store(st, c, tok, ('i', 64)); ex.store(st, s.cc, Ptr(c.obj, padd(c.idx, 1), 8), ('p',)); s.effect(st, o, tok, du)
        if not ex.quiet: s.calls.append(('enc', o, off, st.pc))
        return None
    def decode(s, ex, fr, st, ins, A, dem):
        d, o = s.args(A, dem, st, False); c = ex.load(st, s.cd, ('p',)); tok = ex.load(st, c, ('i', 64)); off = psub(ex.rescale(o['data'], s.b).idx, s.x0); d['data_offset'] = off
        if not ex.quiet:
            for k, v in d.items(): ex.oblige('decoder: %s of %s as the encoder had it' % (k, o['kind']), s.eq(s.proj(k, s.srt(v))(tok), v), st.pc, P + (('C15',) if k.startswith('coeff') else ()), extra=s.ectx())
            s.common(st, o, off, 'decoder'); s.calls.append(('dec', o, off, st.pc))
        ex.store(st, s.cd, Ptr(c.obj, padd(c.idx, 1), 8), ('p',)); s.effect(st, o, tok, s.proj('verbatim_count', IntS)(tok)); return None
    def ectx(s): return ()
    def eq(s, a, b): return a == (ZI(b) if isc(b) else b)
    def compute(s, ex, fr, st, ins, A, dem):
        reg = A[-1]
        for i in range(s.K): ex.store(st, Ptr(reg.obj, padd(reg.idx, i), 4), ex.fp.fresh('fit', 32), ('f', 32))
    def compress(s, ex, fr, st, ins, A, dem):
        _, reg, rt, ru = A
        for i in range(s.K):
            v = ex.fp.fresh('coefficient', 32); ex.store(st, Ptr(reg.obj, padd(reg.idx, i), 4), v, ('f', 32)); ex.store(st, Ptr(rt.obj, padd(rt.idx, i), 4), v, ('f', 32))
        u = ex.load(st, ru, ('p',)); d = z3.Int(ex.fresh_name('verbatim_coefficients')); ex.fact(z3.And(d >= 0, d <= s.K), 'contract of compress_regression_coefficient'); ex.store(st, ru, Ptr(u.obj, padd(u.idx, d), u.es), ('p',))
    def select(s, ex, fr, st, ins, A, dem): return z3.If(z3.Bool(ex.fresh_name('regression')), 1, 0)
def pair(rep, name, S):
    enc, dec, nd, eb, span, _ = CODECS[name]; m = ir.extract(TU, noinline=NOINLINE); ty = SN[S]
    fE = m.func(ir.find(m, r'^unsigned long %s<%s>\(' % (enc, ty))); fD = m.func(ir.find(m, r'^void %s<%s>\(' % (dec, ty))); rep.fn('%s<%s>' % (enc, ty), '%s<%s>' % (dec, ty))
    ex = Ex(fp=UF, ints=IntMath, timeout=20000); tr = Trav(ex, nd, S); K, b, T = tr.K, tr.b, tr.T; ex.clprops = P
    rep.assume("sizes and offsets do not wrap (number of elements below 2^31)")
    ex.contracts += [(re.compile('block_pred_and_quant'), tr.encode), (re.compile('block_pred_and_decompress'), tr.decode), (re.compile('compute_regression_coeff'), tr.compute), (re.compile('compress_regression_coefficient'), tr.compress), (re.compile('sz_blockwise_selection'), tr.select)]
    def nat(n, lo=0):
        x = z3.Int(n); ex.ints.nnv.add(n); ex.fact(x >= lo, 'pre'); return x
    # DSize: the numbers of blocks as its constructor computes them: d = (num-1)*bs + last, 1 <= last <= bs
    bs = nat('block_size', 1); N = [nat('blocks_' + a, 0) for a in 'xyz'[:nd]]; L = [nat('last_' + a, 1) for a in 'xyz'[:nd]]; D = []
    for n, l in zip(N, L): ex.fact(l <= bs, 'pre'); D.append(padd(pmul(n, bs), l))    # N counts the full blocks before the last one
    num = [padd(n, 1) for n in N]; tot = D[0]; nb = num[0]
    for x in D[1:]: tot = pmul(tot, x)
    for x in num[1:]: nb = pmul(nb, x)
    tr.total = tot; dims = [tot_(D[1:])] if nd == 2 else [tot_(D[1:]), D[2]]
    o = Obj('size', 'cells', 64 if nd == 2 else 88); c = {}; off = 0; u64 = ('i', 64)
    for x in D + [tot]: c[off] = (u64, x); off += 8
    c[off] = (I32, bs); c[off + 4] = (I32, pmul(bs, bs) if nd == 2 else pmul(bs, pmul(bs, bs))); off += 8
    for x in num + [nb] + dims: c[off] = (u64, x); off += 8
    o.ro = True; tr.size = o
    rad = z3.Int('intv_radius'); ex.fact(z3.And(rad >= 2, rad <= 1 << 24), 'pre'); use = z3.Bool('use_mean'); mv = ex.fp.fresh('mean', tr.w); prec = ex.fp.fresh('precision', 64)
    mo = Obj('meanInfo', 'cells', 2 * b); mo.ro = True
    def base(): st = State(); st.mem[o] = Mem('cells', dict(c)); st.mem[mo] = Mem('cells', {0: (('i', 8), z3.If(use, 1, 0)), b: (T, mv)}); return st
    DATA, IND, TYPE, RT, RU, UN, TOK = buf(ex, 'data', T), buf(ex, 'indicator', ('i', 8)), buf(ex, 'type', I32), buf(ex, 'reg_type', ('f', 32)), buf(ex, 'reg_unpred', ('f', 32)), buf(ex, 'unpredictable', T), buf(ex, 'blocks', u64)
    tr.PR = buf(ex, 'precisions', ('f', 64)); tr.PR.ro = DATA.ro = True
    tr.y0, tr.x0, tr.p0, i0, t0, r0, ru0, u0 = [nat(n) for n in ('y0', 'x0', 'p0', 'i0', 't0', 'r0', 'ru0', 'u0')]
    st = base(); tr.cc = cell(ex, st, 'blocks_pos', ('p',), Ptr(TOK, 0, 8)); rup = cell(ex, st, 'reg_unpred_pos', ('p',), Ptr(RU, ru0, 4)); up = cell(ex, st, 'unpred_pos', ('p',), Ptr(UN, u0, b))
    P0 = Ptr(tr.PR, tr.p0, 8)
    s2, rc = ex.call_func(fE, m, [Ptr(DATA, tr.y0, b)] + ([P0] if eb else []) + [Ptr(o), Ptr(mo)] + ([] if eb else [prec]) + [pmul(2, rad), rad, Ptr(IND, i0, 1), Ptr(TYPE, t0, 4), Ptr(RT, r0, 4), rup, up], st, ())
    recs = ex.recs[-1]
    FI, FR, FT = ex.freshA('indicators', ('i', 8)), ex.freshA('coefficients', ('f', 32)), ex.freshA('block_tokens', u64)
    from ..loops import writes
    ok = [final_facts(ex, R, a, F) for a, F in ((IND, FI), (RT, FR), (TOK, FT)) for R in recs if writes(R, a)]
    ex.oblige('encoder: indicators, coefficients and blocks are only appended', all(ok) and len(recs) == 1, (), P)
    ex.oblige('encoder: one block per block of the grid', ex.ints.icmp('eq', vcell(s2, tr.cc).idx, nb, 64), s2.pc, P)
    ex.recs.append([]); ex.logs.append([])
    def arr(nm, ety, A):
        q = buf(ex, nm, ety); q.init = A; q.ro = True; return q
    IND2, REG2, TOK2 = arr('indicator_read', ('i', 8), FI), arr('coefficients_read', ('f', 32), FR), arr('blocks_read', u64, FT); TYPE2, UN2, OUT = buf(ex, 'codes', I32), buf(ex, 'verbatim', T), buf(ex, 'output', T); UN2.ro = TYPE2.ro = True
    sd = base(); tr.cd = cell(ex, sd, 'blocks_pos', ('p',), Ptr(TOK2, 0, 8)); lk = Lock(ex, recs, [TOK]); lk.props = P; ex.match = lk
    s3, _ = ex.call_func(fD, m, [Ptr(o)] + ([P0] if eb else []) + [Ptr(mo)] + ([] if eb else [prec]) + [rad, Ptr(REG2, r0, 4), Ptr(IND2, i0, 1), Ptr(TYPE2, t0, 4), Ptr(UN2, u0, b), Ptr(OUT, tr.x0, b)], sd, ())
    ex.match = None; top = [R for R in ex.recs[-1] if getattr(R, 'dec', False)]
    ex.oblige('decoder: every loop over blocks runs in step with the encoder', len(top) == 1 and len(lk.matched) == nd, (), P)
    ex.oblige('decoder: as many blocks as encoded', ex.ints.icmp('eq', vcell(s3, tr.cd).idx, vcell(s2, tr.cc).idx, 64), s3.pc, P)
    ns = []; R = top[0] if top else None
    while R is not None:
        ns.append(R); nx = [q for q in R.children if getattr(q, 'dec', False)]; R = nx[0] if nx else None
    # the grid covers the data: block (i,j,k) is [i*bs, i*bs+size) in each dimension, every i below the number of blocks is visited
    if len(ns) == nd:
        for r, n_, ax in zip(ns, num, 'xyz'): ex.oblige('the loop over %s visits every block' % ax, r.enc.N is not None and ex.ints.icmp('eq', r.enc.N, n_, 64), (), P)
        for who, q, off, pc in tr.calls:
            want = 0
            for r, dm in zip(ns, dims + [1]): want = padd(want, pmul(pmul(r.n, bs), dm))
            ex.oblige('%s: block (i,j,k) starts at point (i,j,k)*block_size' % who, ex.ints.icmp('eq', off, want, 64), pc, P)
            for r, n_, d_, sz, ax in zip(ns, num, D, q['sizes'], 'xyz'):
                ex.oblige('%s: size_%s is the rest of the dimension, at most block_size' % (who, ax), z3.And(sz <= bs, pmul(r.n, bs) + sz <= ZI(d_), z3.Or(sz == bs, pmul(r.n, bs) + sz == ZI(d_)), z3.Implies(ZI(r.n) + 1 < ZI(n_), sz == bs)), pc, P)
    x = z3.Int('x'); q = z3.Int('q'); rm = z3.Int('r')
    ex.oblige('every index lies in exactly one block', z3.Implies(z3.And(x == q * bs + rm, 0 <= rm, rm < bs, 0 <= x, x < D[0]), z3.And(0 <= q, q < num[0], z3.Implies(q == N[0], rm < L[0]))), (), P)
    if lk.why and os.environ.get('TRDBG'): print(lk.why)
    rep.from_ex(ex, '%s / %s <%s>' % (enc, dec, ty))
def tot_(xs):
    r = xs[0]
    for x in xs[1:]: r = pmul(r, x)
    return r
