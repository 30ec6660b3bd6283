"""Code words: build_code assigns every leaf its path, encode() concatenates the words of the symbols, decode() walks the tree along the bits.
For every symbol X: INS(X,n) — X's leaf is in the subtree of n; DEPTH(X,n) — its depth below n; PATH(X,n) — the path to it as a DEPTH-bit number."""
import os, re, z3
from .. import ir
from ..sym import *
from ..exe import Ex
from ..heap import HeapEx, NODE
from ..inv import Spec
from .kernels import cell, buf, vcell, bv
from .huffq import mktree, field, setfield, mod, I32, I64
I8 = ('i', 8)
B64 = z3.BitVecSort(64); B32 = z3.BitVecSort(32)
INS = z3.Function('INS', B32, B64, z3.BoolSort()); DEPTH = z3.Function('DEPTH', B32, B64, B64); PATH = z3.Function('PATH', B32, B64, B64)
V = lambda v, w=64: z3.BitVecVal(v, w)
def bitat(x, k): return z3.Extract(0, 0, z3.LShR(x, k))
def run(rep, only=None):
    m = mod()
    rep.assume("code words are at most 64 bits (a longer one needs at least F(66) > 2^44 points)", "type-separated heap: objects are accessed by their declared scalar types", "malloc returns a block apart from every block in use",
               "single-symbol streams: the shift by 64 of the empty code word is given its x86 meaning or any other value with no set bit")
    for nm, f in (('build_code', build), ('encode', enc), ('decode', dec)):
        if only in (None, nm): rep.fn(nm); f(rep, m)
def bvex(timeout=60000):
    ex = HeapEx(timeout, ints=IntBV); st = State(); ex.init_state(st); return ex, st
def hsel(ex, st, ty, a): return z3.Select(ex.memof(st, ex.maps[ty]).d, a)
def treedef(ex, M, X, n):
    """the ghost functions at node n, in terms of the tree's memory"""
    l, r, t, c = (z3.Select(M[ty], n + off) for ty, off in ((('p',), 0), (('p',), 8), (I8, 24), (I32, 28)))
    leaf = t != 0; il, ir_ = INS(X, l), INS(X, r); D, W = (lambda q: DEPTH(X, q)), (lambda q: PATH(X, q))
    return z3.And(z3.If(leaf, z3.And(INS(X, n) == (c == X), D(n) == 0, W(n) == 0),
        z3.And(INS(X, n) == z3.Or(il, ir_), z3.Not(z3.And(il, ir_)), z3.Implies(INS(X, n), z3.And(D(n) == 1 + z3.If(il, D(l), D(r)), z3.UGE(D(n), 1))), z3.Implies(il, W(n) == W(l)), z3.Implies(ir_, W(n) == (V(1) << D(r)) | W(r)))),
        z3.ULE(D(n), 64), z3.ULE(D(l), 64), z3.ULE(D(r), 64), *[z3.Or(D(q) == 64, z3.ULT(W(q), V(1) << D(q))) for q in (n, l, r)])
def maps0(ex): return {t: ex.maps[t].init for t in ex.maps}
P9 = ('C09', 'C10')
def build(rep, m):
    ex, st = bvex(); ex.heap_malloc = True; X = z3.BitVec('X', 32); z = bv('z', 64); n = bv('n', 64); ln = bv('len', 32); o1, o2 = bv('out1', 64), bv('out2', 64)
    CODE = ex.parr('code'); COUT = buf(ex, 'cout', I8); T = mktree(ex, st, code=Ptr(CODE, 0, 8), cout=Ptr(COUT, 0, 1)); M = maps0(ex); brk0 = st.mem[ex.brk].d[0][1]
    L = z3.ZeroExt(32, ln); HT = z3.Function('HEIGHT', B64, B64)
    for q in (n, z3.Select(M[('p',)], n), z3.Select(M[('p',)], n + 8)): ex.fact(z3.And(z3.ULT(q, brk0 - 64), z3.ULT(HT(q), 65), z3.Implies(INS(X, q), z3.ULE(DEPTH(X, q), HT(q)))), 'pre')
    isleaf = z3.Select(M[I8], n + 24) != 0
    ex.fact(z3.And(z3.ULE(L, 64), z3.ULE(L + HT(n), 64), z3.Implies(z3.Not(isleaf), z3.And(*[z3.ULT(HT(z3.Select(M[('p',)], n + o)), HT(n)) for o in (0, 8)]))), 'pre: depth at most 64')
    ex.fact(z3.Or(L == 64, z3.ULT(o1, V(1) << L)), 'pre'); ex.fact(treedef(ex, M, X, n), 'definition of the tree functions'); ex.fact(z3.ULT(brk0, 1 << 62), 'pre')
    XI = z3.ZeroExt(32, X); ex.fact(z3.Implies(isleaf, z3.Select(M[I32], n + 28) >= 0), 'pre'); ex.fact(X >= 0, 'pre'); ex.fact(z3.ULT(z, brk0), 'pre')
    def post(M64a, M64b, Ca, Cb, Oa, Ob, brk, nn, len_, o, ins):
        d = len_ + DEPTH(X, nn); w = ((o << DEPTH(X, nn)) | z3.If(DEPTH(X, nn) == 0, V(0), PATH(X, nn)))
        return [('the occurring symbol gets its length', z3.Implies(ins, z3.Select(Ob, XI) == z3.Extract(7, 0, d))),
                ('it gets a code word', z3.Implies(ins, z3.And(z3.Select(Cb, XI) != 0, z3.ULT(z3.Select(Cb, XI), brk)))),
                ('the word is the path, aligned to the top', z3.Implies(ins, z3.And(z3.Select(M64b, z3.Select(Cb, XI)) == z3.If(d == 0, V(0), w << (64 - d))))),
                ('other symbols are untouched', z3.Implies(z3.Not(ins), z3.And(z3.Select(Ob, XI) == z3.Select(Oa, XI), z3.Select(Cb, XI) == z3.Select(Ca, XI))))]
    def shl1(p, o, b, D): return z3.Implies(z3.And(p == ((o << 1) | b), z3.ULE(D, 63)), (p << D) == ((o << (D + 1)) | (V(b) << D)))
    for b in (0, 1): ex.oblige('lemma: shifting a word extended by bit %d' % b, shl1(bv('p', 64), bv('o', 64), b, bv('D', 64)), (), P9)
    def rec(ex_, fr, s, ins_, A, dem):
        t, nn, l2, p1, p2 = A; a = ex.addr(nn); l2 = ex.ints.lift(l2, 32); L2 = z3.ZeroExt(32, l2); p1 = ex.ints.lift(p1, 64); need = lambda nm, g: ex.oblige(nm, g, s.pc, P9)
        need('build_code is called on a child', z3.Or(a == z3.Select(M[('p',)], n), a == z3.Select(M[('p',)], n + 8)))
        need('one level down', z3.And(z3.ULE(L2 + HT(a), 64), z3.ULT(HT(a), HT(n)))); need('the word so far fits its length', z3.Or(L2 == 64, z3.ULT(p1, V(1) << L2)))
        Ma, Ca, Oa = ex.memof(s, ex.maps[I64]).d, ex.memof(s, CODE).d, ex.memof(s, COUT).d; b0 = s.mem[ex.brk].d[0][1]
        Mb, Cb, Ob = (z3.Const(ex.fresh_name(k), x.sort()) for k, x in (('M64', Ma), ('code', Ca), ('cout', Oa))); b1 = ex.ints.fresh('brk', 64)
        ex.fact(z3.And(z3.UGE(b1, b0), z3.ULT(b1, 1 << 62)), 'contract of build_code')
        for q in (z, z3.Select(Ca, XI)): ex.fact(z3.Implies(z3.ULT(q, b0), z3.Select(Mb, q) == z3.Select(Ma, q)), 'contract of build_code (frame)')
        for _, g in post(Ma, Mb, Ca, Cb, Oa, Ob, b1, a, L2, p1, INS(X, a)): ex.fact(g, 'contract of build_code')
        for b in (0, 1): ex.fact(shl1(p1, o1, b, DEPTH(X, a)), 'lemma')
        for o, v in ((ex.maps[I64], Mb), (CODE, Cb), (COUT, Ob)): s.mem[o] = Mem('arr', v); o.stored = True
        s.mem[ex.brk] = Mem('cells', {0: (I64, b1)}); return None
    ex.contracts.append((re.compile(r'^build_code\('), rec)); ex.fact(z3.ULT(z3.Select(CODE.init, XI), brk0), 'pre')
    s2, _ = ex.call_func(m.func(ir.find(m, r'^build_code\(')), m, [T, ex.hp(n), ln, o1, o2], st, ())
    Mb, Cb, Ob = ex.memof(s2, ex.maps[I64]).d, ex.memof(s2, CODE).d, ex.memof(s2, COUT).d; b1 = ex.ints.lift(s2.mem[ex.brk].d[0][1], 64)
    for nm, g in post(M[I64], Mb, CODE.init, Cb, COUT.init, Ob, b1, n, L, o1, INS(X, n)):
        if 'aligned' not in nm: ex.oblige(nm, g, s2.pc, P9); continue
        for cn, c in (('a leaf', isleaf), ('in the left subtree', z3.And(z3.Not(isleaf), INS(X, z3.Select(M[('p',)], n)))), ('in the right subtree', z3.And(z3.Not(isleaf), z3.Not(INS(X, z3.Select(M[('p',)], n)))))): ex.oblige(nm + ' (%s)' % cn, g, s2.pc, P9, extra=[c])
    ex.oblige('blocks already in use are untouched', z3.And(z3.Select(Mb, z) == z3.Select(M[I64], z), z3.UGE(b1, brk0)), s2.pc, P9)
    for t in (('p',), I8, I32): ex.oblige('the tree is untouched', z3.BoolVal(ex.memof(s2, ex.maps[t]).d.eq(M[t])), s2.pc, P9)
    # an arbitrary bit of the aligned word is a bit of the path
    d, w, t = bv('d', 64), bv('w', 64), bv('t', 64); ex.oblige('bit t of the aligned word is bit t of the path', z3.Implies(z3.And(z3.ULE(d, 64), z3.ULT(t, d), z3.Or(d == 64, z3.ULT(w, V(1) << d))), bitat(w << (64 - d), 63 - t) == bitat(w, d - 1 - t)), (), ('C09',))
    rep.from_ex(ex, 'build_code')
BSUM = z3.Function('BSUM', B64, B64); SYM = z3.Function('SYM', B64, B32); LEN = z3.Function('LEN', B32, B64)
def hasptr(fr, Lp): return any(i.op == 'phi' and i.ty == ('p',) for i in fr.fn.blocks[Lp.header].ins)
def dec(rep, m):
    f = m.func(ir.find(m, r'^decode\(')); P = ('C09', 'C10')
    for single in (True, False):
        ex, st = bvex(); N, K, t = bv('N', 64), bv('K', 64), bv('root', 64); src = buf(ex, 'stream', I8); src.ro = True; out = buf(ex, 'out', I32); M = maps0(ex)
        ex.fact(z3.And(z3.ULT(N, 1 << 50), z3.ULT(K, N)), 'pre'); leaf = z3.Select(M[I8], t + 24) != 0; ex.fact(leaf if single else z3.Not(leaf), 'pre')
        nb = z3.UDiv(BSUM(N) + 7, V(8)); ex.fact(z3.ULT(BSUM(N), 1 << 57), 'pre'); z = bv('z', 64); ex.fact(z3.UGE(z, N), 'pre')
        def lo(ex_, s, p, ty):
            i = ex.ints.L(p.byteoff(), 64); ex.oblige('reads stay within the packed bits', z3.ULT(i, nb), s.pc, P + ('C13', 'C14')); src.on_load = None; v = ex.load(s, p, ty); src.on_load = lo; return v
        src.on_load = lo; L = lambda x: ex.ints.L(x, 64)
        if single:
            ex.fact(z3.And(SYM(K) == z3.Select(M[I32], t + 28)), 'pre: the only symbol'); ex.fact(BSUM(N) == 0, 'pre')
            def inv1(ex_, s, R, ctx):
                k = L(R['count']); A = ex.memof(s, out).d; return [('in range', z3.ULE(k, N)), ('decoded so far', z3.Implies(z3.ULT(K, k), z3.Select(A, K) == SYM(K))), ('nothing else written', z3.Select(A, z) == z3.Select(out.init, z))]
            ex.inv.append((re.compile('decode'), lambda ex_, fr, Lp: hasptr(fr, Lp), Spec('bit loop', {}, lambda ex_, s, R, ctx: [], P)))
            ex.inv.append((re.compile('decode'), lambda ex_, fr, Lp: True, Spec('constant stream', {'count': I64}, inv1, P, measure=lambda ex_, s, R: (N - L(R['count']), 64))))
        else:
            def given(k, d, n):
                """hypotheses at symbol number k, d bits into its word, at node n"""
                x = SYM(k); yield z3.Implies(z3.ULT(k, N), z3.And(BSUM(k + 1) == BSUM(k) + DEPTH(x, t), z3.ULE(BSUM(k + 1), BSUM(N)), INS(x, t), z3.UGE(DEPTH(x, t), 1)))
                q = BSUM(k) + d; yield z3.Implies(z3.And(z3.ULT(k, N), z3.ULT(d, DEPTH(x, t))), bitat(z3.Select(src.init, z3.LShR(q, 3)), z3.Extract(7, 0, 7 - (q & 7))) == bitat(PATH(x, t), DEPTH(x, t) - 1 - d))
                for a in (n, t): 
                    yield treedef(ex, M, x, a)
                    for o in (0, 8): yield treedef(ex, M, x, z3.Select(M[('p',)], a + o))
            def inv2(ex_, s, R, ctx):
                i, k, n = L(R['i']), L(R['count']), ex.addr(R['n']); A = ex.memof(s, out).d; x = SYM(k); d = i - BSUM(k); D = DEPTH(x, t)
                return [('in range', z3.And(z3.ULE(k, N), z3.ULE(BSUM(k), i), z3.ULE(i, BSUM(N)))), ('between symbols the node is the root', z3.Implies(d == 0, n == t)), ('at the end no bit is left', z3.Implies(k == N, d == 0)),
                        ('on the path of the current symbol', z3.Implies(z3.ULT(k, N), z3.And(z3.ULT(d, D), INS(x, n), DEPTH(x, n) == D - d, z3.Select(M[I8], n + 24) == 0, PATH(x, n) == (PATH(x, t) & ((V(1) << (D - d)) - 1))))),
                        ('decoded so far', z3.Implies(z3.ULT(K, k), z3.Select(A, K) == SYM(K))), ('nothing else written', z3.Select(A, z) == z3.Select(out.init, z))]
            def extra(ex_, s, R, ctx):
                i, k, n = L(R['i']), L(R['count']), ex.addr(R['n']); g = list(given(k, i - BSUM(k), n)); g += list(given(k + 1, V(0), t)); return g
            for g in given(V(0), V(0), t): ex.fact(g, 'pre')
            for q in (z3.Select(M[('p',)], t), ): pass
            ex.fact(BSUM(V(0)) == 0, 'pre'); ex.fact(z3.ULE(V(0), BSUM(N)), 'pre')
            def inv1(ex_, s, R, ctx): return []
            ex.inv.append((re.compile('decode'), lambda ex_, fr, Lp: not hasptr(fr, Lp), Spec('constant stream', {}, inv1, P)))
            ex.inv.append((re.compile('decode'), lambda ex_, fr, Lp: True, Spec('bit loop', {'i': I64, 'count': I64, 'n': ('p',)}, inv2, P, measure=lambda ex_, s, R: (BSUM(N) - L(R['i']), 64), extra=extra)))
        s2, _ = ex.call_func(f, m, [Ptr(src, 0, 1), N, ex.hp(t), Ptr(out, 0, 4)], st, ()); A = ex.memof(s2, out).d
        ex.oblige('every symbol is restored', z3.Select(A, K) == SYM(K), s2.pc, P); ex.oblige('nothing outside of the output is written', z3.Select(A, z) == z3.Select(out.init, z), s2.pc, P + ('C14',))
        rep.from_ex(ex, 'decode%s' % (' (one symbol)' if single else ''))
def enc(rep, m):
    f = m.func(ir.find(m, r'^encode\(')); P = ('C09', 'C10'); ex, st = bvex(); N, k, t, z = bv('N', 64), bv('k', 64), bv('t', 64), bv('z', 64); L = lambda x: ex.ints.L(x, 64)
    CODE = ex.parr('code'); COUT = buf(ex, 'cout', I8); COUT.ro = True; T = mktree(ex, st, code=Ptr(CODE, 0, 8), cout=Ptr(COUT, 0, 1)); M = maps0(ex); src = buf(ex, 's', I32); src.ro = True; out = buf(ex, 'out', I8); osz = cell(ex, st, 'outSize', I64, 0)
    sym = lambda i: z3.SignExt(32, z3.Select(src.init, i)); ln = lambda i: z3.ZeroExt(56, z3.Select(COUT.init, sym(i))); word = lambda i: z3.Select(M[I64], z3.Select(CODE.init, sym(i)))
    ex.fact(z3.And(z3.ULT(N, 1 << 50), z3.ULT(BSUM(N), 1 << 57), BSUM(V(0)) == 0, z3.ULT(k, N), z3.ULT(t, ln(k))), 'pre')
    def given(i): return z3.Implies(z3.ULT(i, N), z3.And(BSUM(i + 1) == BSUM(i) + ln(i), z3.ULE(BSUM(i + 1), BSUM(N)), z3.ULE(ln(i), 64), z3.Or(ln(i) == 64, word(i) << ln(i) == 0)))
    ex.fact(given(V(0)), 'pre'); ex.fact(given(k), 'pre'); ex.fact(z3.ULE(BSUM(V(0)), BSUM(N)), 'pre'); q = BSUM(k) + t; ex.fact(z3.UGE(z, z3.LShR(BSUM(N), 3) + 9), 'pre')
    def lo(ex_, s, p, ty):
        i = L(p.idx); ex.oblige('reads of the symbols stay in range', z3.ULT(i, N), s.pc, ('C14',)); src.on_load = None; v = ex.load(s, p, ty); src.on_load = lo; return v
    src.on_load = lo
    def inv(ex_, s, R, ctx):
        i, p, lack = L(R['i']), R['p'], ex.ints.L(R['lackBits'], 32); A = ex.memof(s, out).d; Bs = BSUM(i)
        pi = L(p.byteoff()) if isinstance(p, Ptr) and p.obj is out else None
        return [('in range', z3.And(z3.ULE(i, N), z3.ULE(Bs, BSUM(N)), z3.Implies(z3.ULT(k, i), z3.ULE(BSUM(k) + ln(k), Bs)))),
                ('write position', pi == z3.LShR(Bs, 3)), ('bits left in the current byte', z3.ZeroExt(32, lack) == ((8 - (Bs & 7)) & 7)), ('bytes counted', L(vcell(s, osz)) == z3.LShR(Bs + 7, 3)),
                ('bits of the symbols so far', z3.Implies(z3.ULT(k, i), bitat(z3.Select(A, z3.LShR(q, 3)), z3.Extract(7, 0, 7 - (q & 7))) == z3.Extract(0, 0, z3.LShR(word(k), 63 - t)))),
                ('the rest of the current byte is clear', z3.Implies((Bs & 7) != 0, (z3.Select(A, z3.LShR(Bs, 3)) & z3.LShR(V(255, 8), z3.Extract(7, 0, Bs & 7))) == 0)),
                ('nothing beyond the end is written', z3.Select(A, z) == z3.Select(out.init, z))]
    ex.inv.append((re.compile('encode'), lambda ex_, fr, Lp: Lp.parent is None, Spec('symbol loop', {'i': I64, 'p': ('p',), 'lackBits': I32}, inv, P, measure=lambda ex_, s, R: (N - L(R['i']), 64), extra=lambda ex_, s, R, ctx: [given(L(R['i']))])))
    s2, _ = ex.call_func(f, m, [T, Ptr(src, 0, 4), N, Ptr(out, 0, 1), osz], st, ()); A = ex.memof(s2, out).d
    ex.oblige('every bit of every code word is at its place', bitat(z3.Select(A, z3.LShR(q, 3)), z3.Extract(7, 0, 7 - (q & 7))) == z3.Extract(0, 0, z3.LShR(word(k), 63 - t)), s2.pc, P)
    ex.oblige('the bytes counted are the packed bits rounded up', L(vcell(s2, osz)) == z3.LShR(BSUM(N) + 7, 3), s2.pc, P + ('C13',)); ex.oblige('nothing beyond 8 bytes after the end is written', z3.Select(A, z) == z3.Select(out.init, z), s2.pc, ('C14',))
    rep.from_ex(ex, 'encode')
