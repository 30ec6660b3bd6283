"""Critical-point-preserving compressors (vertex by vertex): compressor and decompressor in lockstep through the compressed stream.
Callee contracts: derive (part derive), eb_exponential_quantize (part ebq), Huffman coder (parts huffcode, hufftree, huffq), flag packing (part bits)."""
import os, re, z3
from .. import ir
from ..sym import *
from ..exe import Ex, NOTHANDLED
from ..lock import Lock, final_facts
from ..loops import writes, subst
from ..ufo import UFO
from .. import vbool
from .kernels import cell, buf, vcell, SN
TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tu', 'cp2d.cpp')
NOINLINE = ('eb_exponential_quantize', 'derive_cp_eb', 'Huffman', 'convert', 'log_transform', 'check_cp', 'compute_cp')
I32 = ('i', 32)
P = ('C03', 'C08', 'C13', 'C17')
CODECS = {  # name: encoder, decoder, relative?, log?
 'abs': ('sz_compress_cp_preserve_2d_online_abs', 'sz_decompress_cp_preserve_2d_online', 'abs'),
 'relax': ('sz_compress_cp_preserve_2d_online_abs_relax_FN', 'sz_decompress_cp_preserve_2d_online', 'relax'),
 'rel': ('sz_compress_cp_preserve_2d_online', 'sz_decompress_cp_preserve_2d_online', 'rel'),
 'log': ('sz_compress_cp_preserve_2d_online_log', 'sz_decompress_cp_preserve_2d_online_log', 'log'),
}
def run(rep, name=None, S=None):
    for k in CODECS if name else ('abs', 'rel', 'relax'):
        for x in 'fd':
            if name in (None, k) and S in (None, x): pair(rep, k, x)
class CP:
    def __init__(s, ex, w): s.ex, s.w, s.b, s.T = ex, w, w // 8, ('f', w); s.recs = None; s.huff = []; s.rend = None; s.decoded = {}; s.geo = {}
    def ebq(s, ex, fr, st, ins, A, dem):
        e, base, lob, thr = A; e0 = ex.load(st, e, ('f', 64)); r = ex.ints.fresh('eb_index', 32); zero = ex.fp.const(0, 64)
        v = ex.fp.bin('fmul', ex.fp.bin2('pow', ex.fp.fromint(base, 64), ex.fp.fromint(r, 64), 64), thr, 64)
        lb = ex.fp.cval(lob); ok = isc(base) and base >= 2 and ((lb is not None and 2.0 ** lb == base) or lob.eq(ex.fp.un('log2', ex.fp.fromint(base, 64), 64))); tv = ex.fp.cval(thr)
        if not ex.quiet: ex.oblige('eb_exponential_quantize is called within its precondition', bool(ok and tv is not None and 2.0 ** -52 <= tv), st.pc, ('C07', 'C03'))
        if not ex.quiet: ex.oblige('the tolerance handed to eb_exponential_quantize is not infinite', z3.Or(ex.fp.nan(e0), ex.fp.o(e0) < ex.fp.o(ex.fp.const(0x7ff0000000000000, 64))), st.pc, ('C07',))
        new = z3.If(r == 0, zero, v); ex.fact(z3.And(r >= 0, r <= 1076), 'contract of eb_exponential_quantize')
        if not ex.quiet: ex.calls.append(("eb", e0, new, st.pc))
        ex.fact(z3.Implies(r > 0, z3.And(ex.fp.cmp('ole', v, e0, 64), ex.fp.cmp('ogt', v, zero, 64))), 'contract of eb_exponential_quantize')
        ex.store(st, e, new, ('f', 64)); return r
    def derive(s, ex, fr, st, ins, A, dem):
        v = ex.fp.fresh('derived', 64); ex.fact(ex.fp.num(v), 'derived tolerances are numbers')
        if not ex.quiet:
            g = None
            if len(A) > 6 and isinstance(A[6], Ptr) and isc(A[6].byteoff()): g = [ex.fp.cval(ex.load(st, Ptr(A[6].obj, padd(A[6].byteoff(), s.b * k), 1), s.T)) for k in range(4)]
            s.geo[v.get_id()] = g; ex.calls.append(("der", A, v, st.pc))
        return v
    def compute_cp(s, ex, fr, st, ins, A, dem):
        vec, u, v, r1, r2 = A; ok = all(isinstance(p, Ptr) and ex.memof(st, p.obj).d.eq(X.init) and same(p.byteoff(), 0) for p, X in zip((u, v), s.UV)) and same(r1, s.r[0]) and same(r2, s.r[1])
        if not ex.quiet: ex.oblige('the cells with critical points are those of the original field', ok, st.pc, ('C04',))
        o = Obj('cell_has_cp', 'arr', None, ('i', 8)); o.init = z3.Const('cell_has_cp', ex.arrsort(('i', 8))); o.ro = True; s.cells = o; o.size = pmul(2, pmul(padd(r1, -1), padd(r2, -1))); ex.store(st, vec, Ptr(o, 0, 1), ('p',)); return None
    def check_cp(s, ex, fr, st, ins, A, dem):
        q = ex.rescale(A[0], s.b) or A[0]; vs = [ex.load(st, Ptr(q.obj, padd(q.byteoff(), s.b * k), 1), s.T) for k in range(6)]; r = ex.ints.fresh('has_cp', 32); ex.fact(z3.Or(r == 1, r == -1), 'contract of check_cp')
        if not ex.quiet: ex.calls.append(('chk', vs, r, st.pc))
        return r
    @property
    def eb(s): return [c[1:] for c in s.ex.calls if c[0] == 'eb']
    @property
    def derived(s): return [c[1:] for c in s.ex.calls if c[0] == 'der']
    def vecs(s, st):
        return [o for o in st.mem if getattr(o, 'vec', None)]
    HB = z3.Function('Huffman_encoded_size_bound', IntS, IntS, IntS)
    def hbound(s, ex, fr, st, ins, A, dem):
        r = s.HB(ZI(A[0]), ZI(A[1])); ex.fact(r >= 0, 'contract of Huffman_encoded_size_bound'); return r
    def encode(s, ex, fr, st, ins, A, dem):
        n, arr, num, pos = A; q = ex.load(st, pos, ('p',)); ln = z3.Int(ex.fresh_name('entropy_bytes')); ex.ints.nnv.add(ln.decl().name()); ex.fact(z3.And(ln >= 1, ln <= s.HB(ZI(n), ZI(num))), 'contract of the entropy coder')
        arr = ex.rescale(arr, 4); m = ex.memof(st, arr.obj)
        for R in ex.recs[-1]:
            if writes(R, arr.obj):
                ok = final_facts(ex, R, arr.obj, m.d); 
                if not ex.quiet: ex.oblige('codes are appended in order (%s)' % n, ok is not False, (), P)
        s.huff.append((n, arr.obj, num)); ex.tokstore(st, q.obj, q.byteoff(), ln, ('huff', n, m.d, arr.idx, num, ln)); ex.store(st, pos, Ptr(q.obj, padd(q.byteoff(), ln), 1), ('p',)); return None
    def decode(s, ex, fr, st, ins, A, dem):
        n, num, pos = A; q = ex.load(st, pos, ('p',)); m = ex.memof(st, q.obj); t, k = ex.tokfind(st, q.obj, m, q.byteoff(), None, 1)
        if t is None or t[3][0] != 'huff':
            ex.oblige('entropy-coded field is read where it was written', False, st.pc, ('C13',)); raise Unsupported("entropy field not found")
        pay = t[3]; ex.oblige('entropy-coded field is read where it was written', True, st.pc, ('C13',))
        ex.oblige('entropy decoder gets the same alphabet', ex.ints.icmp('eq', n, pay[1], 64), st.pc, ('C13', 'C08')); ex.oblige('entropy decoder gets the same number of symbols', ex.ints.icmp('eq', num, pay[4], 64), st.pc, ('C13',))
        o = Obj('decoded_codes', 'arr', pmul(4, num), I32); o.init = pay[2]; s.decoded[n] = o; s.rend = padd(q.byteoff(), pay[5]); ex.store(st, pos, Ptr(q.obj, s.rend, 1), ('p',)); return Ptr(o, pay[3], 4)
ASSUME = ("finite input field and a finite bound (relative: at most 1)", "derived tolerances are numbers (not NaN): part derivenum, for components of magnitude at most 2^55 (float) and 2^220 (double)",
  "floating point: uninterpreted operations with the order, monotonicity and commutativity axioms of vcg/ufo.py, which hold for IEEE arithmetic with round-to-nearest",
  "Huffman_encode_tree_and_data / Huffman_decode_tree_and_data: contracts of parts huffcode, hufftree, huffq (encode writes at least one and at most Huffman_encoded_size_bound bytes; decode gives back the symbols)",
  "eb_exponential_quantize: contract of part ebq (result 0, or an index 1..1076 with 0 < base^index*threshold <= the tolerance); pow is a function of its arguments",
  "malloc succeeds; printf does not touch the data; r1, r2 < 2^31")
def pair(rep, name, S):
    rep.assume(*ASSUME); ex = None
    def keep(e): nonlocal ex; ex = e
    enc, dec, mode = CODECS[name]; pre = '%s / %s <%s>' % (enc, dec, SN[S])
    try: pair1(rep, name, S, keep)
    except Unsupported as e: rep.undecided('%s: %s' % (pre, e))
    rep.from_ex(ex, pre) if ex is not None else None
def pair1(rep, name, S, keep):
    enc, dec, mode = CODECS[name]; w = 32 if S == 'f' else 64; b = w // 8; T = ('f', w); m = ir.extract(TU, noinline=NOINLINE); ty = SN[S]
    fE = m.func(ir.find(m, r'%s<%s>\(' % (enc, ty))); fD = m.func(ir.find(m, r'%s<%s>\(' % (dec, ty))); rep.fn('%s<%s>' % (enc, ty), '%s<%s>' % (dec, ty))
    ex = Ex(fp=UFO, ints=IntMath, timeout=20000); keep(ex); ex.clprops = P; ex.mono = ex.views = True; ex.check_bounds = True; cp = CP(ex, w)
    ex.retry = True; vbool.contracts(ex, []); ex.contracts += [(re.compile('compute_cp'), cp.compute_cp), (re.compile('check_cp'), cp.check_cp), (re.compile('eb_exponential_quantize'), cp.ebq), (re.compile('derive_cp_eb_for'), cp.derive), (re.compile('Huffman_encoded_size_bound'), cp.hbound), (re.compile('Huffman_encode_tree'), cp.encode), (re.compile('Huffman_decode_tree'), cp.decode)]
    r1, r2 = z3.Int('r1'), z3.Int('r2'); [ex.ints.nnv.add(x) for x in ('r1', 'r2')]; ex.fact(z3.And(r1 >= 1, r2 >= 1, r1 < 1 << 31, r2 < 1 << 31), 'pre'); n = pmul(r1, r2)
    U, V = Obj('U', 'arr', pmul(b, n), T), Obj('V', 'arr', pmul(b, n), T); U.init, V.init = z3.Const('U', ex.arrsort(T)), z3.Const('V', ex.arrsort(T)); U.ro = V.ro = True
    for nm in 'UV': ex.summ[nm] = lambda i, t: ex.fact(ex.fp.fin(t), 'finite field')
    bound = ex.fp.fresh('max_pwr_eb', 64); ex.fact(ex.fp.fin(bound), 'pre'); ex.fact(ex.fp.o(bound) <= 1, 'pre') if mode == 'rel' else ex.fact(ex.fp.o(bound) >= 0, 'pre') if mode == 'relax' else None; st = State(); cs = cell(ex, st, 'compressed_size', ('i', 64), UNDEF)
    cp.UV = (U, V); cp.r = (r1, r2); s2, out = ex.call_func(fE, m, [Ptr(U, 0, b), Ptr(V, 0, b), r1, r2, cs, False, bound], st, ())
    recs = ex.recs[-1]; cp.recs = recs; size = vcell(s2, cs)
    main = [R for R in recs if any(writes(R, o) for _, o, _ in cp.huff)]
    end = s2.mem[out.obj].d[-1]; ex.oblige('compressed_size is the end of the stream', ex.ints.icmp('eq', size, padd(end[1], end[2]), 64), s2.pc, P)
    # verbatim values as the finished vector holds them
    for vec in cp.vecs(s2):
        for R in main:
            if writes(R, vec): ex.oblige('verbatim values are only appended', final_facts(ex, R, vec, ex.memof(s2, vec).d) is not False, (), P)
    DEC = [o for R in main for v in R.cls for o in [v[1]] if v[0] == 'arr' and o.ety == T and not getattr(o, 'vec', None)]
    pay = [o for _, o, _ in cp.huff]
    ex.oblige('the stream fits the allocated buffer', out.obj.size is not None and ex.ints.icmp('sle', size, out.obj.size, 64), s2.pc, ('C14',))
    ed = vertex(ex, cp, main, mode, U, V, bound, r1, r2, w)
    ex.mono = False; ex.recs.append([]); ex.logs.append([])
    sd = State(s2.pc, dict(s2.mem)); lk = Lock(ex, recs, pay); lk.props = P; ex.match = lk
    ru, rv = cell(ex, sd, 'U_out', ('p',), Ptr(None, 0, 1)), cell(ex, sd, 'V_out', ('p',), Ptr(None, 0, 1))
    out.obj.ro = True; s3, _ = ex.call_func(fD, m, [Ptr(out.obj, 0, 1), r1, r2, ru, rv], sd, ()); ex.match = None
    if os.environ.get('CPDBG'): print(lk.matched, lk.why)
    top = [R for R in ex.recs[-1] if getattr(R, 'dec', False)]
    recog(ex, 'decoder: the loop over the vertices runs in step with the encoder', len(top) == 1 and len(lk.matched) == 2, (), P)
    if top:
        Rd = top[0]; ex.oblige('decoder: the entropy-coded fields end where the stream ends', cp.rend is not None and ex.ints.icmp('eq', cp.rend, size, 64), s3.pc, ('C13',))
        ex.oblige('decoder: verbatim values are consumed by the vertices that stored them', any(a[0] == 'delta' and a[1][0] == 'cell' and isinstance(a[1][2], tuple) for a in Rd.assign.values()), (), ('C08', 'C13'))
        for c, X in ((ru, U), (rv, V)):
            q = vcell(s3, c); a = Rd.arrs.get(q.obj) if isinstance(q, Ptr) else None
            if os.environ.get('CPDBG'): print('OUT', X, q, a, ed)
            ok = a is not None and a[0] == 'prefix' and ed.get(X) is a[1] and same(a[3], 0)
            ex.oblige('decoder: component %s comes back as the compressor left it' % X.name, bool(ok), (), P + ('C01',))
            if ok:
                F = subst(a[2], main[0].exitmap); ex.oblige('decoder: every vertex of %s is written' % X.name, ex.ints.icmp('eq', F, n, 64), s3.pc, P); ex.oblige('decoder: %s points to its first vertex' % X.name, ex.ints.icmp('eq', q.byteoff(), 0, 64), s3.pc, P)
                ex.oblige('decoder: %s holds r1*r2 values' % X.name, q.obj.size is not None and ex.ints.icmp('eq', q.obj.size, pmul(b, n), 64), s3.pc, P + ('C14',))
    if os.environ.get('CPDBG'):
        for R in recs: print('REC', R.header, R.N, {str(k): v[0] for k, v in R.cls.items()}, [v for k, v in R.cls.items() if k[0] == 'arr'])
        print(out, vcell(s2, cs), s2.mem[out.obj].d if out.obj in s2.mem else None)
OFFS = [(-1, 0), (-1, -1), (0, -1), (1, 0), (1, 1), (0, 1)]
def recog(ex, *a):
    """recognition of the shape of the code: if it fails, nothing is said about the property"""
    r = ex.oblige(*a)
    if not r: ex.obls[-1].soft = True
    return r
def copies(ex, st, o, X, r1, r2):
    q = ex.ints.fresh('q', 64); d = st.mem[o].d
    return z3.is_const(d) and ex.holds(z3.Implies(z3.And(q >= 0, q < ZI(pmul(r1, r2))), ex.sel(d, q) == ex.sel(X.init, q)), st.pc)
def vertex(ex, cp, main, mode, U, V, bound, r1, r2, w):
    """one iteration of the encoder: what it stores for vertex (i,j)"""
    fp = ex.fp; T = ('f', w); R0 = main[0]; R1 = [c for c in R0.children if writes(c, cp.huff[0][1])][0]; P1 = R1.P; bst, bpc = P1.bm[0], P1.bm[0].pc; i, j = R0.n, R1.n; F = padd(pmul(i, r2), j)
    dec = {}
    for v in R1.cls:
        if v[0] == 'arr' and v[1].ety == T and not getattr(v[1], 'vec', None):
            for X in (U, V):
                if R0.st0.mem[v[1]].d.eq(X.init) or copies(ex, R0.st0, v[1], X, r1, r2): dec[X] = v[1]
    recog(ex, 'the compressor works on copies of both components', set(dec) == {U, V}, (), P)
    if len(dec) < 2: return dec
    for X in dec:
        c = R1.cls[('arr', dec[X])]; ok = len(c) > 1 and same(subst(c[3], {c[2].decl().name(): (c[2], R1.n)}), F)
        recog(ex, 'iteration (i,j) works on vertex i*r2+j of %s, vertex by vertex' % X.name, ok, (), P)
        if not ok: return dec
    cur = {X: ex.sel(X.init, F) for X in dec}; new = {X: ex.sel(bst.mem[dec[X]].d, F) for X in dec}; at = {X: P1.hst.mem[dec[X]].d for X in dec}
    [ex.sel(at[X], F) for X in dec]
    def dist(X):
        d = fp.abs(fp.bin('fsub', new[X], cur[X], w), w); return d if w == 64 else fp.ext(d, 32, 64)
    mag = {X: (lambda a: a if w == 64 else fp.ext(a, 32, 64))(fp.abs(cur[X], w)) for X in dec}
    chg = z3.Or(*[new[X] != cur[X] for X in dec])
    def tol(X, e):
        if mode in ('abs', 'relax'): return e
        return fp.bin('fmul', mag[X], e, 64)
    def mono(X, es):
        """products with the magnitude of the value are monotone in the other factor"""
        out = []
        for e0, _, _ in cp.eb:
            if z3.is_app(e0) and e0.decl().name().startswith('fmul'):
                for p, q in ((e0.arg(0), e0.arg(1)), (e0.arg(1), e0.arg(0))):
                    for e in es: out.append(z3.Implies(z3.And(p == mag[X], fp.num(q), fp.num(e), fp.num(tol(X, e)), fp.num(e0), fp.o(p) >= 0, fp.o(q) <= fp.o(e)), fp.o(e0) <= fp.o(tol(X, e))))
        return out
    rel = mode == 'rel'
    for X in dec:
        D = dist(X); b = tol(X, bound); 'DBG' in globals() and DBG(ex, cp, main, mode, U, V, bound, r1, r2, w, X, new, cur, dist, bpc)
        ex.oblige('%s of a vertex: kept bit for bit, or within the bound of the user' % X.name, z3.Or(new[X] == cur[X], z3.And(fp.num(D), (fp.o(D) <= fp.o(b)) if mode == 'relax' else fp.o(D) < fp.o(b))), bpc, ('C03',), extra=mono(X, [bound]) + ([fp.num(b)] if rel else []))
    if mode in ('abs', 'rel'):
        for k in range(6):
            (a, b), (c, d) = OFFS[k], OFFS[(k + 1) % 6]; q1, q2 = padd(F, padd(pmul(a, r2), b)), padd(F, padd(pmul(c, r2), d))
            grid = [i + a >= 0, i + a < r1, j + b >= 0, j + b < r2, i + c >= 0, i + c < r1, j + d >= 0, j + d < r2]; alts = []; extra = []
            for A, val, pc in cp.derived:
                def args(x, y): return z3.And(*[ZT(g) == ZT(h) for g, h in zip(A[:6], [ex.sel(at[U], x), ex.sel(at[U], y), cur[U], ex.sel(at[V], x), ex.sel(at[V], y), cur[V]])])
                extra += [e for X in dec for e in mono(X, [val])] + ([fp.num(tol(X, val)) for X in dec] if rel else [])
                alts.append(z3.And(*[ZB(l) for l in pc], z3.Or(args(q1, q2), args(q2, q1)), *[z3.And(fp.num(dist(X)), fp.o(dist(X)) < fp.o(tol(X, val))) for X in dec]))
            if rel and recog(ex, 'the geometry of triangle %d is a table' % k, all(g is not None and None not in g for g in cp.geo.values()), (), ('C22',)):
                def fits(g, p, q): return g is not None and None not in g and (g[0]*p[1] + g[1]*q[1], g[0]*p[0] + g[1]*q[0], g[2]*p[1] + g[3]*q[1], g[2]*p[0] + g[3]*q[0]) == (1, 0, 0, 1)   # (row, column) offsets of the corners
                kalts = [z3.And(*[ZB(l) for l in pc], z3.Or(*[args(*o) for o, h in (((q1, q2), ((a, b), (c, d))), ((q2, q1), ((c, d), (a, b)))) if fits(cp.geo.get(val.get_id()), *h)]), *[z3.And(fp.num(dist(X)), fp.o(dist(X)) < fp.o(tol(X, val))) for X in dec]) for A, val, pc in cp.derived for args in [lambda x, y, A=A: z3.And(*[ZT(g) == ZT(h) for g, h in zip(A[:6], [ex.sel(at[U], x), ex.sel(at[U], y), cur[U], ex.sel(at[V], x), ex.sel(at[V], y), cur[V]])])]]
                ex.oblige('a changed vertex moves by less than the tolerance derived with the geometry of incident triangle %d' % k, z3.Or(*kalts) if kalts else False, bpc + tuple(grid) + (chg,), ('C22',), extra=extra)
            ex.oblige('a changed vertex moves by less than the tolerance derived from incident triangle %d, given the current values of its other corners' % k, z3.Or(*alts) if alts else False, bpc + tuple(grid) + (chg,), ('C04', 'C06'), extra=extra)
    if mode == 'relax':
        for k in range(6):
            (a, b), (c, d) = OFFS[k], OFFS[(k + 1) % 6]; q1, q2 = padd(F, padd(pmul(a, r2), b)), padd(F, padd(pmul(c, r2), d)); wd = padd(r2, -1)
            grid = [i + a >= 0, i + a < r1, j + b >= 0, j + b < r2, i + c >= 0, i + c < r1, j + d >= 0, j + d < r2]
            # the cell: its corner with the smallest indices, and which of its two triangles (0: with (1,0), 1: with (0,1))
            vs = [(0, 0), (a, b), (c, d)]; ci, cj = min(x for x, _ in vs), min(y for _, y in vs); low = 0 if (ci + 1, cj) in vs else 1
            cell = padd(pmul(2, padd(pmul(padd(i, ci), wd), padd(j, cj))), low)
            ex.oblige('a changed vertex: incident triangle %d had no critical point' % k, ex.sel(cp.cells.init, cell) == 0 if getattr(cp, 'cells', None) else False, bpc + tuple(grid) + (chg,), ('C04', 'C05'))
            alts = []
            for vf, ret, pc in [x[1:] for x in ex.calls if x[0] == 'chk']:
                def args(x, y): return z3.And(*[g == h for g, h in zip(vf, [ex.sel(at[U], x), ex.sel(at[V], x), ex.sel(at[U], y), ex.sel(at[V], y), new[U], new[V]])])
                alts.append(z3.And(*[ZB(l) for l in pc], ret != 1, z3.Or(args(q1, q2), args(q2, q1))))
            ex.oblige('a changed vertex: incident triangle %d has no critical point with the new value and the current ones of its other corners' % k, z3.Or(*alts) if alts else False, bpc + tuple(grid) + (chg,), ('C04',))
    zero = fp.const(0, w)
    if mode in ('abs', 'relax'): ex.oblige('a zero vector is kept bit for bit', z3.Not(z3.And(chg, *[fp.cmp('oeq', cur[X], zero, w) for X in dec])), bpc, ('C05',))
    for (nn, o, num), what, hi in zip(cp.huff, ('tolerance', 'data'), (None, None)):
        A = bst.mem[o].d; per = next((q for q in (1, 2) if same(num, pmul(q, pmul(r1, r2)))), None)
        for k in range(per or 0):
            x = ex.sel(A, padd(pmul(per, F), k)); ex.oblige('%s code %d of a vertex lies in the alphabet' % (what, k), z3.And(ZI(x) >= 0, ZI(x) < ZI(nn)), bpc, ('C08', 'C14'))
        recog(ex, '%s codes: a fixed number per vertex' % what, per is not None, (), ('C08', 'C13'))
    return dec
def ZT(x): return x
