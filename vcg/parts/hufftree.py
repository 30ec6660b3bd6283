"""The serialised Huffman tree. Nodes are numbered in preorder; SZ(j): number of nodes of the subtree at number j.
pad_tree_*: entry j of the four tables describes node number j. unpad_tree_*: node number j is rebuilt from entry j. convert/reconstruct/encode_withTree/decode_withTree: the byte layout."""
import os, re, z3
from .. import ir
from ..sym import *
from ..exe import Ex
from ..heap import HeapEx, NODE
from ..inv import Spec
from .kernels import cell, buf, vcell, bv
tsize = ir.tsize
from .huffq import mktree, field, setfield, mod, I32, I64
from .huffcode import maps0
I8, PT = ('i', 8), ('p',)
B64 = IntS
class IntMod(IntMath):
    """unsigned narrow integers: conversion to w < 32 bits is reduction modulo 2^w, widening keeps the value"""
    name = "integers; conversions to 8 and 16 bits are exact (modulo 2^w), 32- and 64-bit values do not wrap"
    def trunc(s, a, w1, w2):
        if w2 in (8, 16) and not isc(a): return ZI(a) % (1 << w2)
        return IntMath.trunc(s, a, w1, w2)
    def zext(s, a, w1, w2): return a if w1 > 1 and not isc(a) else IntMath.zext(s, a, w1, w2)
def intex(timeout=20000):
    ex = HeapEx(timeout, ints=IntMod); st = State(); ex.init_state(st); return ex, st
def I(n): return z3.Int(n)
SZ = z3.Function('SUBTREE_SIZE', B64, B64); INM = z3.Function('CONTAINS_M', B64, z3.BoolSort()); POS = z3.Function('PREORDER_POSITION', B64, B64)
P = ('C12', 'C09')
W = {'uchar': 8, 'ushort': 16, 'uint': 32}
def run(rep, only=None, w=None):
    m = mod(); rep.assume("type-separated heap: objects are accessed by their declared scalar types", "a leaf has no children, an inner node has two (contract of new_node; the pool is cleared when the tree is created)")
    for k in W:
        if w not in (None, k): continue
        if only in (None, 'pad'): rep.fn('pad_tree_' + k); pad(rep, m, k)
        if only in (None, 'unpad'): rep.fn('unpad_tree_' + k, 'new_node2'); unpad(rep, m, k)
    if only in (None, 'layout'): layout(rep, m)
def ext(x, w): return x
def LT(a, b): return a < b
def LE(a, b): return a <= b
def GT(a, b): return a > b
def GE(a, b): return a >= b
def pad(rep, m, k):
    w = W[k]; ex, st = intex(); et = ('i', w); n, mm = I('n'), I('m'); i32 = i = I('i'); z = I('z'); M = maps0(ex)
    arr = {a: buf(ex, a, t) for a, t in (('L', et), ('R', et), ('C', I32), ('t', I8))}; T = mktree(ex, st, n_inode=i32); ex.fact(i >= 0, 'pre'); g = lambda t, a: z3.Select(M[t], a)
    def tree(q):
        l, r = g(PT, q), g(PT, q + 8); leaf = g(I8, q + 24) != 0
        return z3.And(q != 0, SZ(q) >= 1, *[POS(y) >= 0 for y in (q, l, r)], z3.If(leaf, z3.And(l == 0, r == 0, SZ(q) == 1, INM(q) == (q == mm)), z3.And(l != 0, r != 0, SZ(q) == 1 + SZ(l) + SZ(r), GE(SZ(l), 1), GE(SZ(r), 1), LT(SZ(l), 1 << 31), LT(SZ(r), 1 << 31), INM(q) == z3.Or(q == mm, INM(l), INM(r)), z3.Not(z3.And(INM(l), INM(r))), z3.Implies(q == mm, z3.Not(z3.Or(INM(l), INM(r)))))),
                      POS(q) == z3.If(q == mm, z3.IntVal(0), z3.If(INM(l), 1 + POS(l), 1 + SZ(l) + POS(r))), z3.Implies(INM(l), LT(POS(l), SZ(l))), z3.Implies(INM(r), LT(POS(r), SZ(r))))
    ex.fact(tree(n), 'definition of the numbering'); ex.fact(tree(mm), 'definition of the numbering'); ex.fact(LT(SZ(n), 1 << 31), 'pre'); ex.fact(LE(i + SZ(n), 1 << min(w, 31)), 'pre: the tree fits the index width')
    def post(B, A, ino, idx, q):
        j = idx + POS(q); s_ = lambda a: z3.Select(A[a], j); leaf = g(I8, mm + 24) != 0
        yield 'nodes are numbered in preorder', ino == idx + SZ(q) - 1
        yield 'entry of an arbitrary node: symbol and kind', z3.Implies(INM(q), z3.And(s_('C') == g(I32, mm + 28), s_('t') == g(I8, mm + 24)))
        yield 'entry of an arbitrary inner node: numbers of its children', z3.Implies(z3.And(INM(q), z3.Not(leaf)), z3.And(ext(s_('L'), w) == j + 1, ext(s_('R'), w) == j + 1 + SZ(g(PT, mm))))
        yield 'entry of an arbitrary leaf: no children', z3.Implies(z3.And(INM(q), leaf), z3.And(s_('L') == z3.Select(B['L'], j), s_('R') == z3.Select(B['R'], j)))
    def frame(B, A, idx, q, y): return z3.Implies(z3.Or(LT(y, idx), GE(y, idx + SZ(q))), z3.And(*[z3.Select(A[a], y) == z3.Select(B[a], y) for a in A]))
    cur = lambda s: {a: ex.memof(s, o).d for a, o in arr.items()}
    def rec(ex_, fr, s, ins, A, dem):
        q = ex.addr(A[6]); idx = ZI(A[5]); need = lambda nm, gl: ex.oblige(nm, gl, s.pc, P)
        need('recursion: on a child', z3.And(q != 0, z3.Or(q == g(PT, n), q == g(PT, n + 8)))); need('recursion: numbered next', ZI(field(s, T, 'n_inode')) == idx); need('recursion: the subtree fits', z3.And(LT(SZ(q), SZ(n)), LE(idx + SZ(q), 1 << min(w, 31))))
        need('recursion: the same tables', all(isinstance(A[c], Ptr) and A[c].obj is o and same(A[c].byteoff(), 0) for c, o in zip((1, 2, 3, 4), arr.values())))
        B = cur(s); A2 = {}
        for a, o in arr.items(): A2[a] = z3.Const(ex.fresh_name(a), B[a].sort()); s.mem[o] = Mem('arr', A2[a]); o.stored = True
        ino = ex.ints.fresh('n_inode', 32); setfield(s, T, 'n_inode', ino)
        for _, f in post(B, A2, ino, idx, q): ex.fact(f, 'contract of pad_tree')
        for y in (z, i + POS(n), i): ex.fact(frame(B, A2, idx, q, y), 'contract of pad_tree (frame)')
    ex.contracts.append((re.compile(r'^pad_tree_%s\(' % k), rec)); B0 = cur(st)
    s2, _ = ex.call_func(m.func(ir.find(m, r'^pad_tree_%s\(' % k)), m, [T] + [Ptr(o, 0, tsize_(o)) for o in arr.values()] + [i32, ex.hp(n)], st, ())
    for nm, f in post(B0, cur(s2), ZI(field(s2, T, 'n_inode')), i, n): ex.oblige(nm, f, s2.pc, P)
    ex.oblige('no other entry is written', frame(B0, cur(s2), i, n, z), s2.pc, P + ('C14',))
    for t in M: ex.oblige('the tree is untouched', z3.BoolVal(ex.memof(s2, ex.maps[t]).d.eq(M[t])), s2.pc, P)
    rep.from_ex(ex, 'pad_tree_' + k)
def tsize_(o): return ir.tsize(o.ety)
def unpad(rep, m, k):
    w = W[k]; ex, st = intex(); et = ('i', w); i, J, z, pool = I('i'), I('J'), I('z'), I('T_pool'); M0 = maps0(ex); fix = z3.Function('n', B64, B64)
    arr = {a: buf(ex, a, t) for a, t in (('L', et), ('R', et), ('C', I32), ('t', I8))}; it = {a: o.init for a, o in arr.items()}
    for o in arr.values(): o.ro = True
    T = mktree(ex, st, pool=ex.hp(pool), n_nodes=i + 1); e = lambda a, j: z3.Select(it[a], j); inner = lambda j: e('t', j) == 0; adr = lambda j: pool + 32*j
    def tab(j): return z3.And(LT(SZ(j), 1 << 31), z3.If(inner(j), z3.And(ext(e('L', j), w) == j + 1, ext(e('R', j), w) == j + 1 + SZ(j + 1), SZ(j) == 1 + SZ(j + 1) + SZ(j + 1 + SZ(j + 1)), GE(SZ(j + 1), 1), GE(SZ(j + 1 + SZ(j + 1)), 1), LT(SZ(j + 1), 1 << 31), LT(SZ(j + 1 + SZ(j + 1)), 1 << 31)), SZ(j) == 1))
    for j in (i, J): ex.fact(tab(j), 'pre: the tables describe a tree in preorder')
    ex.fact(z3.And(i >= 0, J >= 0, LE(i + SZ(i), 1 << min(w, 31)), LT(i, 1 << 31), LT(J, 1 << 31), LT(pool, 1 << 60), pool != 0), 'pre'); h = lambda Mx, t, a: z3.Select(Mx[t], a)
    ex.fact(h(M0, I8, adr(i) + 24) == e('t', i), 'pre: the node itself has the right kind')
    cur = lambda s: {t: ex.memof(s, ex.maps[t]).d for t in ex.maps}
    def post(Mb, Ma, nn, idx):
        yield 'nodes are created in preorder', nn == idx + SZ(idx)
        yield 'symbol and kind of an arbitrary node', z3.Implies(z3.And(GT(J, idx), LT(J, idx + SZ(idx))), z3.And(h(Ma, I32, adr(J) + 28) == e('C', J), h(Ma, I8, adr(J) + 24) == e('t', J)))
        yield 'children of an arbitrary inner node', z3.Implies(z3.And(GE(J, idx), LT(J, idx + SZ(idx)), inner(J)), z3.And(h(Ma, PT, adr(J)) == adr(J + 1), h(Ma, PT, adr(J) + 8) == adr(J + 1 + SZ(J + 1))))
    def frame(Mb, Ma, idx, y): 
        """bytes of nodes outside of the subtree, and the node's own symbol and kind"""
        return z3.And(z3.Implies(z3.Or(LT(y, adr(idx)), GE(y, adr(idx + SZ(idx)))), z3.And(*[h(Ma, t, y) == h(Mb, t, y) for t in Ma])), h(Ma, I8, adr(idx) + 24) == h(Mb, I8, adr(idx) + 24), h(Ma, I32, adr(idx) + 28) == h(Mb, I32, adr(idx) + 28))
    def rec(ex_, fr, s, ins, A, dem):
        idx = ZI(A[5]); need = lambda nm, gl: ex.oblige(nm, gl, s.pc, P); ex.fact(tab(idx), 'pre: the tables describe a tree in preorder')
        need('recursion: the same tables', all(isinstance(A[c], Ptr) and A[c].obj is o and same(A[c].byteoff(), 0) for c, o in zip((1, 2, 3, 4), arr.values()))); need('recursion: the node has this number', ex.addr(A[6]) == adr(idx)); Mb = cur(s)
        need('recursion: it is the newest node, of the right kind', z3.And(ZI(field(s, T, 'n_nodes')) == idx + 1, h(Mb, I8, adr(idx) + 24) == e('t', idx))); need('recursion: the subtree fits', z3.And(LE(idx + SZ(idx), 1 << min(w, 31)), LT(SZ(idx), SZ(i))))
        Ma = {}
        for t, o in ex.maps.items(): Ma[t] = z3.Const(ex.fresh_name(o.name), Mb[t].sort()); s.mem[o] = Mem('arr', Ma[t]); o.stored = True
        nn = ex.ints.fresh('n_nodes', 32); setfield(s, T, 'n_nodes', nn)
        for _, f in post(Mb, Ma, nn, idx): ex.fact(f, 'contract of unpad_tree')
        for y in [z, adr(i) + 24, adr(i) + 28] + [adr(J) + o for o in (0, 8, 24, 28)]: ex.fact(frame(Mb, Ma, idx, y), 'contract of unpad_tree (frame)')
    ex.contracts.append((re.compile(r'^unpad_tree_%s\(' % k), rec))
    s2, _ = ex.call_func(m.func(ir.find(m, r'^unpad_tree_%s\(' % k)), m, [T] + [Ptr(o, 0, tsize_(o)) for o in arr.values()] + [i, ex.hp(adr(i))], st, ())
    for nm, f in post(M0, cur(s2), ZI(field(s2, T, 'n_nodes')), i): ex.oblige(nm, f, s2.pc, P)
    ex.oblige('no node outside of the subtree is written', frame(M0, cur(s2), i, z), s2.pc, P + ('C14',))
    rep.from_ex(ex, 'unpad_tree_' + k)
TS = {'uchar': lambda n: 1 + 3*n + 4*n, 'ushort': lambda n: 1 + 4*n + n + 4*n, 'uint': lambda n: 1 + 12*n + n}
RNG = {'uchar': (1, 256), 'ushort': (257, 65536), 'uint': (65537, 1 << 27)}
TREESIZE = z3.Function('tree_bytes', IntS, IntS); BE = z3.Function('big_endian', IntS, IntS); UNBE = z3.Function('from_big_endian', IntS, IntS)
def byteorder(rep, m):
    ex = Ex(fp=UF, ints=IntBV); st = State(); v = bv('v', 32); b = buf(ex, 'b', I8); rep.fn('intToBytes_bigEndian', 'bytesToInt_bigEndian')
    s1, _ = ex.call_func(m.func(ir.find(m, r'^intToBytes_bigEndian\(')), m, [Ptr(b, 0, 1), v], st, ()); s2, r = ex.call_func(m.func(ir.find(m, r'^bytesToInt_bigEndian\(')), m, [Ptr(b, 0, 1)], s1, ())
    ex.oblige('four big-endian bytes read back give the number written', r == v, s2.pc, P + ('C13',)); z = bv('z', 64); ex.fact(z3.UGE(z, 4), 'pre'); ex.oblige('four bytes are written', z3.Select(s1.mem[b].d, z) == z3.Select(b.init, z), s1.pc, P); rep.from_ex(ex, 'byte order')
def layout(rep, m):
    byteorder(rep, m); rep.assume("reads and writes of the stream meet field by field (token streams): a field read at an offset is the field written at that offset")
    for k in W: tables(rep, m, k)
    withtree(rep, m)
def tables(rep, m, k):
    w = W[k]; et = ('i', w); ex, st = intex(); ex.prune = True; nc, j = I('nodeCount'), I('j'); ex.ints.nnv |= {'nodeCount', 'j'}; lo, hi = RNG[k]; ex.fact(z3.And(nc >= lo, nc <= hi, nc % 2 == 1), 'pre'); QQ = ex.parr('qq'); T = mktree(ex, st, qq=Ptr(QQ, 0, 8)); setfield(st, T, 'n_inode', 0)
    need = lambda nm, g, s, pr=P: ex.oblige(nm, g, s.pc, pr); rep.fn('convert_HuffTree_to_bytes_anyStates', 'reconstruct_HuffTree_from_bytes_anyStates', 'new_node2'); post = {}
    def hp(which):
        def h(ex_, fr, s, ins, A, dem):
            need('nodes are packed at the width of their number', which == k, s); need('the root is packed as number 0', z3.And(ZI(A[5]) == 0, ex.addr(A[6]) == z3.Select(QQ.init, 1)), s)
            for c, (a, t) in zip((1, 2, 3, 4), (('L', et), ('R', et), ('C', I32), ('t', I8))):
                o = A[c].obj if isinstance(A[c], Ptr) else None; ok = o is not None and o.kind in ('raw', 'arr') and same(A[c].byteoff(), 0); need('a table of its own is passed (%s)' % a, ok and a not in post, s)
                if not ok: raise Unsupported('table argument')
                if ex.memof(s, o).kind == 'raw': ex.to_arr(s, o, t)
                need('the table holds all nodes (%s)' % a, z3.And(ZI(o.size) >= nc * tsize(t), o.ety == t), s, P + ('C14',)); need('it is cleared before (%s)' % a, z3.Implies(j < nc, z3.Select(ex.memof(s, o).d, j) == 0), s)
                A1 = z3.Const(ex.fresh_name('packed_' + a), ex.arrsort(t)); post[a] = A1; s.mem[o] = Mem('arr', A1); o.stored = True
            need('numbering starts at 0', ZI(field(s, T, 'n_inode')) == 0, s)
        return h
    for q in W: ex.contracts.append((re.compile(r'^pad_tree_%s\(' % q), hp(q)))
    out = cell(ex, st, 'out', PT, NULL); s1, r = ex.call_func(m.func(ir.find(m, r'^convert_HuffTree_to_bytes_anyStates\(')), m, [T, nc, out], st, ()); bytes_ = vcell(s1, out)
    need('the size reported is the size written', ZI(r) == TS[k](nc), s1, P + ('C13',)); ob = bytes_.obj if isinstance(bytes_, Ptr) else None; need('a block of that size is returned', ob is not None and ob.size is not None and same(bytes_.byteoff(), 0) and ex.holds(ZI(ob.size) >= TS[k](nc), s1.pc), s1, P + ('C14',))
    if len(post) < 4: raise Unsupported('tables not packed')
    end = [t[1] for t in ex.memof(s1, ob).d]
    for t in ex.memof(s1, ob).d: need('written fields lie within the block', z3.And(ZI(t[1]) >= 0, ZI(padd(t[1], t[2])) <= TS[k](nc)), s1, P + ('C14',))
    # the reader, on those bytes
    pool = I('T2_pool'); T2 = mktree(ex, s1, pool=ex.hp(pool)); setfield(s1, T2, 'n_nodes', 0); ex.fact(pool > 0, 'pre'); ex.fact(z3.Implies(nc > 1, z3.Select(post['t'], 0) == 0), 'the root of a tree of several nodes is an inner node'); got = []
    def hu(which):
        def h(ex_, fr, s, ins, A, dem):
            got.append(s.pc); need('the tables are read at the width they were written', which == k, s); need('the root is number 0, the first node of the pool', z3.And(ZI(A[5]) == 0, ex.addr(A[6]) == pool, ZI(field(s, T2, 'n_nodes')) == 1), s); need('the root has the kind packed', hget(ex, s, I8, pool + 24) == z3.Select(post['t'], 0), s)
            need('a single node has the symbol packed', z3.Implies(nc == 1, hget(ex, s, I32, pool + 28) == z3.Select(post['C'], 0)), s)
            for c, (a, t) in zip((1, 2, 3, 4), (('L', et), ('R', et), ('C', I32), ('t', I8))):
                o = A[c].obj if isinstance(A[c], Ptr) else None; v = ex.memof(s, o).d if o is not None and ex.memof(s, o).kind == 'arr' else None
                need('the table read is the table packed (%s)' % a, v is not None and o.ety == t and same(A[c].byteoff(), 0) and (v.eq(post[a]) or z3.Implies(z3.And(j >= 0, j < nc), z3.Select(v, j) == z3.Select(post[a], j))), s)
        return h
    for q in W: ex.contracts.append((re.compile(r'^unpad_tree_%s\(' % q), hu(q)))
    s2, r2 = ex.call_func(m.func(ir.find(m, r'^reconstruct_HuffTree_from_bytes_anyStates\(')), m, [T2, bytes_, nc], s1, ()); need('the tree is rebuilt once', len(got) == 1, s2); need('the root is returned', ex.addr(r2) == pool, s2)
    rep.from_ex(ex, 'tables (%s)' % k)
def hget(ex, s, t, a): return z3.Select(ex.memof(s, ex.maps[t]).d, a)
def withtree(rep, m):
    rep.fn('encode_withTree', 'decode_withTree'); ex, st = intex(); N, sn, e = I('length'), I('T_stateNum'), I('code_bytes'); ex.ints.nnv |= {'length', 'code_bytes', 'T_stateNum'}; CODE = ex.parr('code'); T = mktree(ex, st, code=Ptr(CODE, 0, 8)); src = buf(ex, 's', I32); src.ro = True
    for c in (N >= 1, sn >= 1, e >= 0): ex.fact(c, 'pre')
    CN = z3.Function('leaves', IntS, IntS); ex.fact(CN(0) == 0, 'definition of leaves'); need = lambda nm, g, s, pr=P: ex.oblige(nm, g, s.pc, pr); log = []; tb = buf(ex, 'treeBytes', I8); nleaf = CN(sn); nc = 2*nleaf - 1; ex.fact(nleaf >= 1, 'pre: a symbol occurs')
    for k in W: ex.fact(z3.Implies(z3.And(nc >= RNG[k][0], nc <= RNG[k][1]), TREESIZE(nc) == TS[k](nc)), 'contract of convert'); 
    ex.fact(nc <= RNG['uint'][1], 'pre')
    def hinit(ex_, fr, s, ins, A, dem): log.append('init'); need('the tree is built for this input', isinstance(A[1], Ptr) and A[1].obj is src and same(A[1].byteoff(), 0) and same(A[2], N), s)
    def hconv(ex_, fr, s, ins, A, dem): log.append('convert'); need('one entry per node is packed', ZI(A[1]) == nc, s); s.mem[A[2].obj] = Mem('cells', {0: (PT, Ptr(tb, 0, 1))}); tb.size = TREESIZE(nc); return TREESIZE(nc)
    def henc(ex_, fr, s, ins, A, dem):
        log.append('encode'); need('the same input is encoded', isinstance(A[1], Ptr) and A[1].obj is src and same(A[1].byteoff(), 0) and same(A[2], N), s); enc['dst'] = A[3]; enc['pc'] = s.pc; o = A[4]; v = ex.load(s, o, I64); need('the byte counter starts at 0', ZI(v) == 0, s); ex.store(s, o, e, I64)
    enc = {}
    def hbe(ex_, fr, s, ins, A, dem): s.mem[A[0].obj] = Mem('cells', {A[0].byteoff(): (I32, BE(ZI(A[1])))}); ex.fact(UNBE(BE(ZI(A[1]))) == ZI(A[1]), 'byte order lemma')
    def hun(ex_, fr, s, ins, A, dem): return UNBE(ZI(ex.load(s, A[0], I32)))
    for rx, h in ((r'^init\(', hinit), (r'^convert_HuffTree', hconv), (r'^encode\(', henc), (r'^intToBytes_bigEndian', hbe), (r'^bytesToInt_bigEndian', hun)): ex.contracts.append((re.compile(rx), h))
    def inv(ex_, s, R, ctx):
        i = ZI(R['i']); return [('in range', z3.And(i >= 0, i <= sn)), ('words counted', ZI(R['nodeCount']) == CN(i))]
    def extra(ex_, s, R, ctx): i = ZI(R['i']); return [CN(i + 1) == CN(i) + z3.If(z3.Select(ex.memof(s, CODE).d, i) != 0, 1, 0), CN(i) >= 0]
    ex.inv.append((re.compile(r'^encode_withTree'), lambda ex_, fr, L: True, Spec('counting code words', {'i': I64, 'nodeCount': I32}, inv, P, extra=extra, measure=lambda ex_, s, R: (sn - ZI(R['i']), 64))))
    out = cell(ex, st, 'out', PT, NULL); osz = cell(ex, st, 'outSize', I64, 0); s1, _ = ex.call_func(m.func(ir.find(m, r'^encode_withTree')), m, [T, Ptr(src, 0, 4), N, out, osz], st, ())
    need('construction, packing and encoding happen once, in this order', log == ['init', 'convert', 'encode'], s1); o = vcell(s1, out); d = enc['dst']
    need('codes follow the tree', isinstance(d, Ptr) and d.obj is o.obj and ex.holds(ZI(d.byteoff()) == 8 + TREESIZE(nc), s1.pc), s1); need('the size reported covers header, tree and codes', ZI(vcell(s1, osz)) == 8 + TREESIZE(nc) + e, s1, P + ('C13',))
    # the reader on those bytes
    lo, T2, dst = [], mktree(ex, s1), buf(ex, 'decoded', I32); root = I('root')
    def hrec(ex_, fr, s, ins, A, dem):
        lo.append('reconstruct'); need('the node count is read back', ZI(A[2]) == nc, s); t, kk = ex.tokfind(s, o.obj, ex.memof(s, o.obj), A[1].byteoff(), None, None); need('the tree is read where it was written', t is not None and A[1].obj is o.obj and t[3][0] == 'arr' and t[3][5] is tb and same(t[2], TREESIZE(nc)), s); return ex.hp(root)
    def hdec(ex_, fr, s, ins, A, dem): lo.append('decode'); need('codes are read where they were written', z3.And(ZI(A[0].byteoff()) == 8 + TREESIZE(nc)) if isinstance(A[0], Ptr) and A[0].obj is o.obj else False, s, P + ('C13',)); need('as many symbols are decoded', same(A[1], N), s); need('with the tree rebuilt', ex.addr(A[2]) == root, s); need('into the output', isinstance(A[3], Ptr) and A[3].obj is dst and same(A[3].byteoff(), 0), s)
    ex.contracts.insert(0, (re.compile(r'^reconstruct_HuffTree'), hrec)); ex.contracts.insert(0, (re.compile(r'^decode\('), hdec))
    s2, _ = ex.call_func(m.func(ir.find(m, r'^decode_withTree')), m, [T2, Ptr(o.obj, 0, 1), N, Ptr(dst, 0, 4)], s1, ()); need('the tree is rebuilt and the codes are decoded once', lo == ['reconstruct', 'decode'], s2)
    rep.from_ex(ex, 'encode_withTree/decode_withTree')
