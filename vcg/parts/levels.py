"""Multi-level interpolation codec: the traversal of the levels. Compressor and decompressor visit the same lines, in the same order, with the same
arguments; a call of a line function leaves a token that stands for the codes, tolerance indices and verbatim values it appended (part line)."""
import os, re, z3
from .. import ir
from ..sym import *
from ..exe import Ex, NOTHANDLED
from ..lock import Lock, final_facts
from ..loops import writes, subst
from ..ufo import UFO
from .cp2d import TU, CP, I32, recog, OFFS
from . import line
from .kernels import cell, buf, vcell, SN
P = ('C18', 'C13', 'C03')
NI = line.NI + ('recoverI', 'sz3_cp_preserve_2d_predict')
class UFL(UFO):
    """the number of levels ceil(log2(max(r1, r2))) has a name"""
    def toint(s, a, w):
        if s.isfun(a, 'ceil') and s.isfun(a.arg(0), 'log2') and s.isfun(a.arg(0).arg(0), 'itof'):
            x = a.arg(0).arg(0).arg(0); k = ('levels', norm(x).get_id())
            if k not in s.ex.cache:
                L = z3.Int(s.ex.fresh_name('levels')); s.ex.ints.nnv.add(L.decl().name()); s.ex.cache[k] = L; s.ex.keep.append(norm(x)); s.ex.levels = (L, x)
                s.ex.fact(z3.And(L >= 0, L <= 30, pow2(L) >= x, pow2(z3.IntVal(0)) == 1), 'ceil(log2(x)) of the C library')
            return s.ex.cache[k]
        return UFO.toint(s, a, w)
def pow2(k): return z3.Function('pow2', IntS, IntS)(ZI(k))
def run(rep, S=None):
    for x in 'fd':
        if S in (None, x):
            ex = None
            def keep(e): nonlocal ex; ex = e
            pre = 'sz3_compress_cp_preserve_2d_online_abs / sz3_decompress_cp_preserve_2d_online <%s>' % SN[x]
            try: run1(rep, x, keep)
            except Unsupported as e: rep.undecided('%s: %s' % (pre, e))
            if ex is not None: rep.from_ex(ex, pre)
class Lines:
    KEYS = ('base_U', 'base_V', 'n', 'stride', 'quant_count', 'eb_count', 'verbatim_count')
    def __init__(s, ex, b): s.ex, s.b, s.calls = ex, b, []; s.pr = {k: z3.Function('line_' + k, IntS, IntS) for k in s.KEYS + ('verbatim_appended',)}
    def odd(s, n):
        n = ZI(n); k = norm(n).get_id(); ex = s.ex
        if ('odd', k) not in ex.cache:
            h = z3.Int(ex.fresh_name('odd_positions')); ex.ints.nnv.add(h.decl().name()); ex.cache[('odd', k)] = h; ex.keep.append(norm(n)); ex.fact(z3.And(2*h <= n, n < 2*h + 2), 'half of the line')
        return ex.cache[('odd', k)]
    def veclen(s, st, q): return st.mem[q.obj].d.get(('vec', 8), (None, 0))[1]
    def advance(s, st, n, qp, ep):
        ex = s.ex; h = s.odd(n); q = ex.load(st, qp, I32); ex.store(st, qp, padd(q, pmul(2, h)), I32); e = ex.load(st, ep, ('p',)); ex.store(st, ep, Ptr(e.obj, padd(ex.rescale(e, 4).idx, h), 4), ('p',)); return h
    def encode(s, ex, fr, st, ins, A, dem):
        U, V, n, stride, a4, a5, r1, r2, Q, qp, ep, base, lob, thr, eb, quant, io, of = A; r2dir = 'predict_r2' in dem; tok = z3.Int(ex.fresh_name('line'))
        u, v = [ex.rescale(x, s.b) for x in (U, V)]; q = ex.load(st, qp, I32); e = ex.rescale(ex.load(st, ep, ('p',)), 4)
        d = dict(base_U=u.idx, base_V=v.idx, n=n, stride=stride, quant_count=q, eb_count=e.idx, verbatim_count=s.veclen(st, quant))
        for k, x in d.items(): ex.fact(s.pr[k](tok) == ZI(x), 'line token')
        du = z3.Int(ex.fresh_name('verbatim_appended')); ex.ints.nnv.add(du.decl().name()); ex.dbounds[du.decl().name()] = (0, None); ex.fact(z3.And(du >= 0, du == s.pr['verbatim_appended'](tok)), 'contract of the line functions')
        if not ex.quiet: ex.calls.append(('enc', 'r2' if r2dir else 'r1', d, dict(qp=qp, ep=ep, odd=s.odd(n), U=u, V=v, i=a4 if r2dir else a5, j=a5 if r2dir else a4, r1=r1, r2=r2, Q=Q, e=e, base=base, lob=lob, thr=thr, eb=eb, quant=quant, io=io, of=of), st.pc, dict(st.mem)))
        c = ex.load(st, s.cc, ('p',)); ex.store(st, c, tok, ('i', 64)); ex.store(st, s.cc, Ptr(c.obj, padd(c.idx, 1), 8), ('p',)); s.advance(st, n, qp, ep)
        x = dict(st.mem[quant.obj].d); x[('vec', 8)] = (('i', 64), padd(s.veclen(st, quant), du)); st.mem[quant.obj] = Mem('cells', x); ex.logit(('cell', quant.obj, ('vec', 8), st.pc, x[('vec', 8)][1])); return None
    def decode(s, ex, fr, st, ins, A, dem):
        U, V, n, Q, qp, stride, quant, ep, base, thr = A; c = ex.load(st, s.cd, ('p',)); tok = ex.load(st, c, ('i', 64)); u, v = [ex.rescale(x, s.b) for x in (U, V)]; q = ex.load(st, qp, I32); e = ex.rescale(ex.load(st, ep, ('p',)), 4)
        ix = ex.load(st, Ptr(quant.obj, padd(quant.byteoff(), 32), 1), ('i', 64)); rd = ex.load(st, Ptr(quant.obj, padd(quant.byteoff(), 40), 1), I32)
        d = dict(base_U=u.idx, base_V=v.idx, n=n, stride=stride, quant_count=q, eb_count=e.idx, verbatim_count=ix)
        if not ex.quiet:
            for k, x in d.items(): ex.oblige('decoder: %s of the line as the encoder had it' % k, s.pr[k](tok) == ZI(x), st.pc, P)
            ex.calls.append(('dec', d, dict(U=u, V=v, Q=Q, e=e, base=base, thr=thr, quant=quant, radius=rd), st.pc))
        ex.store(st, s.cd, Ptr(c.obj, padd(c.idx, 1), 8), ('p',)); s.advance(st, n, qp, ep); ex.store(st, Ptr(quant.obj, padd(quant.byteoff(), 32), 1), padd(ix, s.pr['verbatim_appended'](tok)), ('i', 64)); return None
def run1(rep, S, keep):
    w = 32 if S == 'f' else 64; b = w // 8; T = ('f', w); m = ir.extract(TU, noinline=NI); ty = SN[S]
    fE = m.func(ir.find(m, r'sz3_compress_cp_preserve_2d_online_abs<%s>\(' % ty)); fD = m.func(ir.find(m, r'sz3_decompress_cp_preserve_2d_online<%s>\(' % ty)); rep.fn('sz3_compress_cp_preserve_2d_online_abs<%s>' % ty, 'sz3_decompress_cp_preserve_2d_online<%s>' % ty)
    ex = Ex(fp=UFL, ints=IntMath, timeout=20000); keep(ex); ex.clprops = P; ex.mono = ex.views = True; ex.check_bounds = True; ex.retry = ex.onesided = True; fp = ex.fp; cp = CP(ex, w); ln = Lines(ex, b)
    r1, r2 = z3.Int('r1'), z3.Int('r2'); [ex.ints.nnv.add(x) for x in ('r1', 'r2')]; ex.fact(z3.And(r1 >= 1, r2 >= 1, r1 < 1 << 29, r2 < 1 << 29), 'pre'); n = pmul(r1, r2); ex.fact(n < 1 << 30, 'pre')
    U, V = Obj('U', 'arr', pmul(b, n), T), Obj('V', 'arr', pmul(b, n), T); U.init, V.init = z3.Const('U', ex.arrsort(T)), z3.Const('V', ex.arrsort(T)); U.ro = V.ro = True
    for nm in 'UV': ex.summ[nm] = lambda i, t: ex.fact(fp.fin(t), 'finite field')
    bound = fp.fresh('max_pwr_eb', 64); ex.fact(z3.And(fp.fin(bound), fp.o(bound) >= 0, fp.o(bound) < 2 ** 127), 'pre'); st = State(); cs = cell(ex, st, 'compressed_size', ('i', 64), UNDEF)
    TOK = buf(ex, 'lines', ('i', 64)); ln.cc = cell(ex, st, 'lines_pos', ('p',), Ptr(TOK, 0, 8)); first = []
    def derive(ex, fr, s, ins, A, dem):
        v = fp.fresh('tolerance', 64); ex.fact(z3.And(fp.num(v), fp.o(v) >= 0, fp.o(v) <= fp.o(A[6])), 'contract of derive_eb_abs_online_2d')
        if not ex.quiet: first.append((v, A, s.pc, dict(s.mem)))
        return v
    cout, vt = Obj('cout', 'cells', 8), Obj('cout_vtable', 'cells', 64); st.mem[vt] = Mem('cells', {8: (('i', 64), 0)}); st.mem[cout] = Mem('cells', {0: (('p',), Ptr(vt, 32, 1))})
    def ignore(ex, fr, s, ins, A, dem): return Ptr(cout, 0, 1) if ins.ty == ('p',) else (ex.ints.fresh('io', ins.ty[1]) if ins.ty and ins.ty[0] == 'i' else None)
    ex.contracts += [(re.compile(r'^(std::ostream|std::basic_ios|std::basic_ostream)|operator<<'), ignore), (re.compile('derive_eb_abs_online_2d'), derive), (re.compile('eb_exponential_quantize'), cp.ebq), (re.compile('Huffman_encoded_size_bound'), cp.hbound), (re.compile('Huffman_encode_tree'), cp.encode), (re.compile('Huffman_decode_tree'), cp.decode),
        (re.compile('sz3_cp_preserve_2d_predict'), ln.encode), (re.compile(r'^void recover<'), ln.decode)]
    line.quantizer_contracts(ex, w, None)
    s2, out = ex.call_func(fE, m, [Ptr(U, 0, b), Ptr(V, 0, b), r1, r2, cs, False, bound], st, ())
    recs = ex.recs[-1]; size = vcell(s2, cs)
    L = getattr(ex, 'levels', (None,))[0]; recog(ex, 'the number of levels is ceil(log2(max(r1, r2)))', L is not None and ex.holds(ZI(ex.levels[1]) == z3.If(r1 > r2, r1, r2), ()), (), P)
    main = [R for R in recs if writes(R, TOK)]; ok = len(main) == 1 and len(main[0].children) == 2 and hasattr(main[0], 'exit') and all(hasattr(c, 'exit') for c in main[0].children)
    recog(ex, 'encoder: one loop over the levels with one loop over lines in each direction', ok, (), P)
    if not ok: return
    R0 = main[0]; RA, RB = R0.children
    # the field starts as a copy of the input; the first vertex
    F0 = [x for x in first]; ex.oblige('the first vertex: its tolerance is derived once', len(F0) == 1, (), ('C18', 'C04'))
    if F0: firstvertex(ex, F0[0], s2, U, V, n, b, bound); tables(ex, F0[0][1], F0[0][3], r2)
    FT = ex.freshA('line_tokens', ('i', 64)); okf = [final_facts(ex, R, TOK, FT) for R in main]; ex.oblige('encoder: lines are only appended', all(x is not False for x in okf), (), P)
    enc = [c for c in ex.calls if c[0] == 'enc']; lines(ex, R0, RA, RB, enc, r1, r2, n, s2, F0[0], (U, V), bound, b, TOK) if F0 else None
    end = s2.mem[out.obj].d[-1]; ex.oblige('compressed_size is the end of the stream', ex.ints.icmp('eq', size, padd(end[1], end[2]), 64), s2.pc, P)
    ex.oblige('the stream fits the allocated buffer', out.obj.size is not None and ex.ints.icmp('sle', size, out.obj.size, 64), s2.pc, ('C14', 'C18'))
    ex.oblige('both kinds of codes are entropy coded, all of them', len(cp.huff) == 2 and z3.And(ex.ints.icmp('eq', cp.huff[0][2], n, 64), ex.ints.icmp('eq', cp.huff[1][2], pmul(2, n), 64)), s2.pc, P)
    # decoder
    ex.mono = False; ex.recs.append([]); ex.logs.append([]); TOK2 = buf(ex, 'lines_read', ('i', 64)); TOK2.init = FT; TOK2.ro = True
    sd = State(s2.pc, dict(s2.mem)); ln.cd = cell(ex, sd, 'lines_read_pos', ('p',), Ptr(TOK2, 0, 8)); lk = Lock(ex, recs, [TOK]); lk.props = P; ex.match = lk
    ru, rv = cell(ex, sd, 'U_out', ('p',), Ptr(None, 0, 1)), cell(ex, sd, 'V_out', ('p',), Ptr(None, 0, 1))
    out.obj.ro = True; s3, _ = ex.call_func(fD, m, [Ptr(out.obj, 0, 1), r1, r2, ru, rv], sd, ()); ex.match = None
    if os.environ.get('CPDBG'): print(lk.matched, lk.why)
    recog(ex, 'decoder: the loops over levels and lines run in step with the encoder', len(lk.matched) == 3, (), P)
    if len(lk.matched) != 3: return
    ex.oblige('decoder: the entropy-coded fields end where the stream ends', cp.rend is not None and ex.ints.icmp('eq', cp.rend, size, 64), s3.pc, ('C13', 'C18'))
    dec = [c for c in ex.calls if c[0] == 'dec']; q = {X: vcell(s3, c) for X, c in (('U', ru), ('V', rv))}
    for c in dec:
        o = c[2]; ex.oblige('decoder: every line belongs to the two output components', o['U'].obj is q['U'].obj and o['V'].obj is q['V'].obj and same(q['U'].byteoff(), 0) and same(q['V'].byteoff(), 0), c[3], P)
        ex.oblige('decoder: the base and the threshold are those of the encoder', z3.And(ZI(o['base']) == 4, o['thr'] == enc[0][3]['thr']), c[3], P); ex.oblige('decoder: the quantizer has the radius of the encoder', ZI(o['radius']) == 32768, c[3], P + ('C08',))
    hq, he = cp.decoded.get(131072), cp.decoded.get(2048)
    for c in dec: ex.oblige('decoder: lines read the codes and the tolerance indices that were decoded', hq is not None and he is not None and c[2]['Q'].obj is hq and same(c[2]['Q'].byteoff(), 0) and c[2]['e'].obj is he, c[3], P)
    for X in 'UV':
        ex.oblige('decoder: %s holds r1*r2 values' % X, q[X].obj.size is not None and ex.ints.icmp('eq', q[X].obj.size, pmul(b, n), 64), s3.pc, P + ('C14',))
        E = [o for o in s2.mem if getattr(o, 'src_copy', None) == X]; A = ex.memof(s3, q[X].obj); eo = enc[0][3][X].obj
        ex.oblige('decoder: the first vertex of %s comes back as the compressor left it' % X, ex.sel(A.d, 0) == ex.sel(ex.memof(s2, eo).d, 0), s3.pc, P + ('C01',))
def firstvertex(ex, f, s2, U, V, n, b, bound):
    v, A, pc, mem = f; fp = ex.fp
    for i, X in enumerate((U, V)):
        q = ex.rescale(A[i], b); d = mem[q.obj].d if q.obj in mem else None
        ex.oblige('the compressor starts from a copy of %s' % X.name, same(q.idx, 0) and isinstance(d, z3.ExprRef) and d.eq(X.init), (), P); ex.oblige('the copy of %s holds r1*r2 values' % X.name, q.obj.size is not None and ex.ints.icmp('eq', q.obj.size, pmul(b, n), 64), (), ('C14', 'C18'))
    ex.oblige('the tolerance of the first vertex is derived at (0,0)', z3.And(ZI(A[2]) == 0, ZI(A[3]) == 0, ZI(A[4]) == z3.Int('r1'), ZI(A[5]) == z3.Int('r2')), (), ('C04', 'C06', 'C18')); ex.oblige('the bound of the first vertex is at most that of the user', z3.And(fp.fin(A[6]), fp.o(A[6]) >= 0, fp.o(A[6]) <= fp.o(bound)), pc, ('C03', 'C18'))
def tables(ex, A, mem, r2):
    """the offsets and the mesh indices of the two other corners of the six incident triangles"""
    st = State((), dict(mem)); io, of = A[7], A[8]
    for k in range(6):
        for j in (0, 1):
            dr, dc = OFFS[(k + j) % 6]
            for x, want in ((0, dc), (1, dr)): ex.oblige('mesh index %d of corner %d of triangle %d' % (x, j, k), ex.ints.icmp('eq', ex.load(st, Ptr(io.obj, padd(io.byteoff(), 16*k + 8*j + 4*x), 1), I32), want, 32), (), ('C18', 'C04', 'C06'))
    for k in range(7):
        dr, dc = OFFS[k % 6]; ex.oblige('offset %d of the incident triangles' % k, ex.ints.icmp('eq', ex.load(st, Ptr(of.obj, padd(of.byteoff(), 4*k), 1), I32), padd(pmul(dr, r2), dc), 32), (), ('C18', 'C04', 'C06'))
def lines(ex, R0, RA, RB, enc, r1, r2, n, s2, first, UV, bound, b, TOK):
    fp = ex.fp; L = ex.levels[0]; lev = psub(L, R0.n); s, ss = pow2(psub(lev, 1)), pow2(lev); x1, x2 = psub(r1, 1), psub(r2, 1); A = [c for c in enc if c[1] == 'r2']; B = [c for c in enc if c[1] == 'r1']
    recog(ex, 'one line call in each of the two loops', len(A) == len(B) == 1, (), P)
    if not len(A) == len(B) == 1: return
    A, B = A[0], B[0]; D = lambda x, y: ZI(x) / ZI(y); div = lambda x, y: z3.And(ZI(y)*D(x, y) <= ZI(x), ZI(x) < ZI(y)*D(x, y) + ZI(y)); rec = [pow2(lev) == 2*s, s >= 1]; PC = ('C18', 'C13', 'C03')
    def lem(nm, goal, pc, extra=(), props=PC): ex.oblige(nm, goal, pc, props, extra=tuple(extra)); return goal
    a, d, aa, dd = D(x1, s), D(x2, s), D(x1, ss), D(x2, ss); base = rec + [div(x1, s), div(x2, s), div(x1, ss), div(x2, ss)]
    # one iteration of the loop over the levels
    ipc = tuple(A[4][:len(R0.st0.pc) + 1]); k, u = RA.n, z3.Int('any_index'); hA = [l for l in A[4]]; hB = [l for l in B[4]]; N1, N2 = [R.exitmap[R.n.decl().name()][1] for R in (RA, RB)]
    e1, e2 = tuple(RA.exit.st.pc), tuple(RB.exit.st.pc)
    half = lem('half as many steps at twice the stride (r1)', z3.And(2*aa <= a, a <= 2*aa + 1), ipc, base), lem('half as many steps at twice the stride (r2)', z3.And(2*dd <= d, d <= 2*dd + 1), ipc, base)
    cnt = [lem('lines along r1: one per known column', N1 == dd + 1, e1, base + [lem('the last line along r1 lies in the mesh', z3.Implies(N1 >= 1, 2*s*(N1 - 1) < r2), e1, rec)]) , lem('lines along r2: one per row of the level', N2 == a + 1, e2, base)]
    for c, S, X, N, nm in ((A, pmul(s, r2), a, N1, 'r1'), (B, s, d, N2, 'r2')):
        g, o, pc = c[2], c[3], c[4]; kk = (RA if c is A else RB).n; at = pmul(2, pmul(s, kk)) if c is A else pmul(s, kk)
        ex.oblige('lines along %s: both components, starting at the same vertex' % nm, z3.And(ZI(g['base_U']) == ZI(g['base_V']), ZI(g['base_U']) == (ZI(at) if c is A else ZI(pmul(at, r2)))), pc, PC)
        ex.oblige('lines along %s: the components are the copies of the input that the first vertex belongs to' % nm, all(o[x].obj is ex.rescale(first[1][i], b).obj for i, x in enumerate('UV')), (), PC)
        ex.oblige('lines along %s: the stride is that of the level' % nm, z3.And(ZI(g['stride']) == ZI(S), ZI(o['i']) == s, ZI(o['j']) == ZI(at)), pc, PC)
        ex.oblige('lines along %s: as many vertices as lie in the mesh' % nm, ZI(g['n']) == X + 1, pc, PC + ('C14',))
        ex.oblige('lines along %s: the mesh is handed over' % nm, z3.And(ZI(o['r1']) == r1, ZI(o['r2']) == r2), pc, PC)
        ex.oblige('lines along %s: the bound is at most that of the user' % nm, z3.And(fp.fin(o['eb']), fp.o(o['eb']) >= 0, fp.o(o['eb']) <= fp.o(bound)), pc, ('C03', 'C18'))
        lb, tv = fp.cval(o['lob']), fp.cval(o['thr']); ex.oblige('lines along %s: base 4, its logarithm, and the threshold 2^-52' % nm, o['base'] == 4 and (lb == 2.0 or o['lob'].eq(fp.un('log2', fp.fromint(4, 64), 64))) and tv == 2.0 ** -52, (), ('C07', 'C18'))
        ex.oblige('lines along %s: the tables of the incident triangles are handed over' % nm, all(same_ptr(o[x], first[1][y]) and c[5][o[x].obj] is first[3][o[x].obj] for x, y in (('io', 7), ('of', 8))), (), ('C04', 'C06', 'C18'))
        ex.oblige('lines along %s: the quantizer' % nm, o['quant'].obj is B[3]['quant'].obj and same(o['quant'].byteoff(), 0) and ex.ints.icmp('eq', ex.load(State((), dict(c[5])), Ptr(o['quant'].obj, 40, 1), I32), 32768, 32), pc, ('C18', 'C08'))
        ex.oblige('lines along %s: every multiple of the stride in the mesh has a position, and no other' % nm, z3.Implies(u >= 0, (u < X + 1) == (u*s <= ZI(x1 if c is A else x2))), pc, PC, extra=base + [z3.Implies(u <= X, (X - u)*s >= 0), z3.Implies(u > X, (u - X - 1)*s >= 0)])
        ex.oblige('lines along %s: a line for every multiple of the distance of the lines in the mesh, and no other' % nm, z3.Implies(u >= 0, (u < N) == (u*(ss if c is A else s) < (r2 if c is A else r1))), e1 if c is A else e2, PC, extra=base + cnt[:1] + ([cnt[1]] if c is B else []) + ([z3.Implies(u <= dd, (dd - u)*ss >= 0), z3.Implies(u > dd, (u - dd - 1)*ss >= 0)] if c is A else [z3.Implies(u <= a, (a - u)*s >= 0), z3.Implies(u > a, (u - a - 1)*s >= 0)]))
    # known vertices: multiples of twice the stride before a level, multiples of the stride after it
    i = z3.Int('any_row'); p = z3.Int('quotient'); sL = pow2(L)
    ex.oblige('before the first level only vertex (0,0) is known', z3.Implies(z3.And(i == p*sL, i >= 0, z3.Or(i < r1, i < r2)), i == 0), (), PC, extra=[z3.Implies(p >= 1, p*sL >= sL), z3.Implies(p <= -1, p*sL <= -sL)])
    xs = R0.exit.st.pc; nx = R0.exitmap[R0.n.decl().name()][1]; ex.oblige('after the last level the stride is one: every vertex is known', psub(L, nx) == 0, tuple(xs), PC)
    # how many
    C = lambda x, y: (x + 1)*(y + 1); qv, ev = ('cell', A[3]['qp'].obj, 0), ('cell', A[3]['ep'].obj, 0); qh, eh = R0.P.hv.get(qv), R0.P.hv.get(ev); es = lambda v: ex.rescale(v, 4).idx
    if qh is None or eh is None or isinstance(qh, Ptr): recog(ex, 'counters of the codes', False, (), P); return
    bst = R0.P.bm[0]; qb, ebk = bst.mem[qv[1]].d[0][1], bst.mem[ev[1]].d[0][1]; h = [z3.And(ZI(qh) == 2*C(aa, dd), ZI(es(eh)) == C(aa, dd))]; h1, h2 = [ZI(A[3]['odd']), ZI(B[3]['odd'])]; oddf = lambda h, X: z3.And(2*h <= X + 1, X + 1 < 2*h + 2)
    q0, e0 = R0.st0.mem[qv[1]].d[0][1], R0.st0.mem[ev[1]].d[0][1]
    ex.oblige('codes before the first level: one vertex', z3.And(ZI(q0) == 2*C(D(x1, sL), D(x2, sL)), ZI(es(e0)) == C(D(x1, sL), D(x2, sL))), tuple(R0.st0.pc), PC, extra=[div(x1, sL), div(x2, sL), z3.Implies(D(x1, sL) >= 1, sL*D(x1, sL) >= sL), z3.Implies(D(x2, sL) >= 1, sL*D(x2, sL) >= sL)])
    o1, o2 = lem('coded on a line along r1', z3.And(h1 == a - aa), ipc, list(half) + [oddf(h1, a)] + base[:1]), lem('coded on a line along r2', h2 == d - dd, ipc, list(half) + [oddf(h2, d)])
    mid = lem('codes after the lines along r1', C(aa, dd) + (dd + 1)*h1 == C(a, dd), ipc, [o1]); fin = lem('codes after the lines along r2', C(a, dd) + (a + 1)*h2 == C(a, d), ipc, [o2])
    ex.oblige('codes after a level: two per known vertex', z3.And(ZI(qb) == 2*C(a, d), ZI(es(ebk)) == C(a, d)), tuple(bst.pc), PC, extra=h + cnt + [mid, fin])
    tot = lem('no more vertices than r1*r2', z3.And(C(a, dd) <= r1*r2, C(a, d) <= r1*r2), ipc, base + list(half) + [a >= 0, d >= 0, aa >= 0, dd >= 0, a + 1 <= r1, d + 1 <= r2, (r1 - a - 1)*(d + 1) >= 0, r1*(r2 - d - 1) >= 0, (a + 1)*(d - dd) >= 0]) if lem('no more steps than vertices', z3.And(a >= 0, d >= 0, aa >= 0, dd >= 0, a + 1 <= r1, d + 1 <= r2), ipc, base + [z3.Implies(a >= 1, (s - 1)*a >= 0), z3.Implies(d >= 1, (s - 1)*d >= 0)], PC + ('C14',)) is not None else None
    for c, kk, N, hh, st0, up, x in ((A, RA.n, dd + 1, h1, C(aa, dd), C(a, dd), [mid]), (B, RB.n, a + 1, h2, C(a, dd), C(a, d), [mid, fin])):
        g = c[2]; kb = lem('line %s is one of those counted' % c[1], ZI(kk) + 1 <= N, c[4], base + [z3.Implies(ZI(kk) > N - 1, (ZI(kk) - N)*(ss if c is A else s) >= 0)])
        last = lem('lines of %s: the vertices so far and those of this line' % c[1], st0 + ZI(kk)*hh + hh <= up, c[4], [x[-1], kb, (N - kk - 1)*hh >= 0])
        have = lem('lines of %s: codes so far' % c[1], z3.And(ZI(g['quant_count']) == 2*(st0 + ZI(kk)*hh), ZI(g['eb_count']) == st0 + ZI(kk)*hh), c[4], h + x[:1] + cnt); y = z3.Int('vertices_so_far')
        ex.oblige('lines of %s: the codes and the tolerance indices fit the arrays' % c[1], z3.And(ZI(g['quant_count']) + 2*hh <= 2*r1*r2, ZI(g['eb_count']) + hh <= r1*r2, ZI(g['quant_count']) >= 0), (), PC + ('C14',), extra=[last, have, tot, hh >= 0, kk*hh >= 0, st0 >= 0, up <= r1*r2])
    qo, eo = c[3]['Q'].obj, c[3]['e'].obj
    for c in (A, B): ex.oblige('lines of %s: codes and tolerance indices go to arrays of 2*r1*r2 and r1*r2' % c[1], z3.And(ex.ints.icmp('eq', c[3]['Q'].obj.size, pmul(8, n), 64), ex.ints.icmp('eq', c[3]['e'].obj.size, pmul(4, n), 64)) if same(c[3]['Q'].byteoff(), 0) else False, (), PC + ('C14',))
    return A, B
def same_ptr(a, b): return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and same(a.byteoff(), b.byteoff())
