"""Huffman construction: the priority queue is a binary heap over node frequencies, removal returns a node of minimal frequency,
every step of the construction merges two nodes of minimal frequency; exactly the symbols that occur become leaves."""
import os, re, z3
from .. import ir
from ..sym import *
from ..exe import Ex
from ..heap import HeapEx, TREE, NODE
from ..inv import Spec
from .kernels import cell, buf, vcell
TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tu', 'huff.cpp')
I32, I64 = ('i', 32), ('i', 64)
P = ('C10', 'C09')
Int = z3.Int
CNT = z3.Function('count', z3.ArraySort(IntS, IntS), IntS, IntS, IntS)      # count(A, n, x): positions 1..n holding x
PRED = z3.Function('any_predicate', IntS, z3.BoolSort())                          # any predicate on nodes
def ind(c): return z3.If(c, 1, 0)
def sel(A, i): return z3.Select(A, ZI(i))
def count_at(ex, QQ, nx):
    """every store into the queue updates count(., n, x) for the given n, x (its defining recurrence, instantiated)"""
    def hk(st, A0, i, v, A1):
        for n, x in nx: ex.fact(z3.Implies(z3.And(1 <= ZI(i), ZI(i) <= n), CNT(A1, n, x) == CNT(A0, n, x) - ind(z3.Select(A0, ZI(i)) == x) + ind(ZI(v) == x)), 'definition of count')
    QQ.on_pstore = hk
def mktree(ex, st, **kw):
    o = Obj('tree', 'cells', 64); d = {}
    for k, (off, t) in TREE.items():
        v = kw.get(k)
        if v is None: v = ex.hp(Int('T_' + k)) if t == ('p',) else Int('T_' + k); 
        d[off] = (t, v)
    st.mem[o] = Mem('cells', d); return Ptr(o)
def field(st, t, k): return st.mem[t.obj].d[TREE[k][0]][1]
def setfield(st, t, k, v):
    d = dict(st.mem[t.obj].d); d[TREE[k][0]] = (TREE[k][1], v); st.mem[t.obj] = Mem('cells', d)
def mod(): return ir.extract(TU, noinline=(r'^_Z\d',))
def fresh(ex):
    def hk(st, a, ty):
        if ty == I64: ex.fact(z3.Select(ex.memof(st, ex.maps[I64]).d, ZI(a)) >= 0, 'frequencies below 2^63')
    ex.on_hload = hk
    ex.ints.nnv |= {'T_' + k for k in TREE}
def F(ex, st, QQ, k): return sel(ex.memof(st, ex.maps[I64]).d, sel(ex.memof(st, QQ).d, k) + NODE['freq'])
K = Int('K')      # the arbitrary position every universally quantified condition is stated for; hypotheses are instantiated where needed
def heapq(ex, st, QQ, n, k, M=None, A=None):
    """binary heap on positions 1..n-1, at k"""
    M = M if M is not None else ex.memof(st, ex.maps[I64]).d; A = A if A is not None else ex.memof(st, QQ).d
    return z3.Implies(z3.And(2 <= k, k < n), sel(M, sel(A, k / 2) + 16) <= sel(M, sel(A, k) + 16))
def run(rep, only=None):
    rep.assume("machine integers of the construction do not wrap (node counts below 2^30, frequencies below 2^63)", "type-separated heap: objects are accessed by their declared scalar types", "count(A,n,x): number of positions 1..n of A holding x (its update rule is taken as definition)")
    m = mod()
    for nm, f in (('qinsert', qinsert), ('qremove', qremove), ('new_node', new_node), ('init', init)):
        if only in (None, nm): rep.fn(nm); f(rep, m)
def qinsert(rep, m):
    ex = HeapEx(5000); st = State(); ex.init_state(st); fresh(ex); QQ = ex.parr('qq'); qe = Int('T_qend'); n = Int('n'); x, z = Int('x'), Int('z'); count_at(ex, QQ, [(qe, x)]); M = ex.maps[I64].init; A0 = QQ.init
    T = mktree(ex, st, qq=Ptr(QQ, 0, 8)); ex.fact(qe >= 1, 'pre'); ex.fact(z3.And(PRED(n), z3.Implies(z3.And(1 <= K, K < qe), PRED(sel(A0, K)))), 'pre'); ex.fact(heapq(ex, st, QQ, qe, K), 'pre'); fn_ = sel(M, n + 16)
    ex.fact(CNT(A0, qe, x) == CNT(A0, qe - 1, x) + ind(sel(A0, qe) == x), 'definition of count')
    def inv(ex, st, R, ctx, k=K):
        i = ZI(R['i']); A = ex.memof(st, QQ).d; f = lambda k: sel(M, sel(A, k) + 16)
        return [('1 <= i <= last', z3.And(1 <= i, i <= qe, field(st, T, 'qend') == qe + 1)),
                ('heap away from the hole', z3.Implies(z3.And(2 <= k, k <= qe, k != i, k / 2 != i), f(k / 2) <= f(k))),
                ('heap across the hole', z3.Implies(z3.And(2 <= k, k <= qe, k / 2 == i), z3.And(fn_ <= f(k), z3.Implies(i > 1, f(i / 2) <= f(k))))),
                ('the predicate holds but at the hole', z3.Implies(z3.And(1 <= k, k <= qe, k != i), PRED(sel(A, k)))), ('the others are kept', CNT(A, qe, x) - ind(sel(A, i) == x) == CNT(A0, qe - 1, x)), ('positions beyond are kept', z3.Implies(z3.Or(z < 1, z > qe), sel(A, z) == sel(A0, z)))]
    ex.inv.append((re.compile('qinsert'), lambda ex, fr, L: True, Spec('sift up', {'i': I32}, inv, P, measure=lambda ex, st, R: (ZI(R['i']), 64), extra=lambda ex, st, R, ctx: [g for _, g in inv(ex, st, R, ctx, ZI(R['i']) / 2)])))
    s2, _ = ex.call_func(m.func(ir.find(m, r'^qinsert\(')), m, [T, ex.hp(n)], st, ()); A = s2.mem[QQ].d
    ex.oblige('the queue is a heap again', heapq(ex, s2, QQ, qe + 1, K), s2.pc, P); ex.oblige('its length grows by one', field(s2, T, 'qend') == qe + 1, s2.pc, P)
    ex.oblige('the node is added, the others are kept', CNT(A, qe, x) == CNT(A0, qe - 1, x) + ind(n == x), s2.pc, P); ex.oblige('frequencies are untouched', s2.mem[ex.maps[I64]].d.eq(M), s2.pc, P)
    ex.oblige('positions beyond the queue are untouched', z3.Implies(z3.Or(z < 1, z > qe), sel(A, z) == sel(A0, z)), s2.pc, P + ('C14',))
    ex.oblige('only queued nodes and the new one are queued', z3.Implies(z3.And(1 <= K, K <= qe), PRED(sel(A, K))), s2.pc, P)
    rep.from_ex(ex, 'qinsert')
def qremove(rep, m):
    ex = HeapEx(5000); st = State(); ex.init_state(st); fresh(ex); QQ = ex.parr('qq'); qe = Int('T_qend'); x, z = Int('x'), Int('z'); count_at(ex, QQ, [(qe - 1, x)]); M = ex.maps[I64].init; A0 = QQ.init
    T = mktree(ex, st, qq=Ptr(QQ, 0, 8)); ex.fact(qe >= 2, 'pre'); ex.fact(z3.And(*[z3.Implies(z3.And(1 <= k, k < qe), PRED(sel(A0, k))) for k in (K, qe - 1)]), 'pre'); ex.fact(heapq(ex, st, QQ, qe, K), 'pre'); e = qe - 1; last = sel(A0, e)
    ex.fact(CNT(A0, e, x) == CNT(A0, e - 1, x) + ind(sel(A0, e) == x), 'definition of count')
    # the root is minimal: induction over positions (step decided, induction principle trusted)
    ff = lambda k: sel(M, sel(A0, k) + 16)
    ex.oblige('root is minimal: induction step', z3.Implies(z3.And(1 <= K, K < qe, z3.Implies(z3.And(1 <= K / 2, K / 2 < K), ff(1) <= ff(K / 2))), ff(1) <= ff(K)), (), P)
    def inv(ex, st, R, ctx, k=K):
        i = ZI(R['i']); A = ex.memof(st, QQ).d; f = lambda k: sel(M, sel(A, k) + 16); fl = sel(M, last + 16)
        return [('1 <= i <= last', z3.And(1 <= i, i <= e, field(st, T, 'qend') == e)), ('the last node is still there', sel(A, e) == last),
                ('heap away from the hole', z3.Implies(z3.And(2 <= k, k < e, k != i, k / 2 != i), f(k / 2) <= f(k))),
                ('heap across the hole', z3.Implies(z3.And(2 <= k, k < e, k / 2 == i, i > 1), f(i / 2) <= f(k))),
                ('the parent is smaller', z3.Implies(i > 1, f(i / 2) <= fl)),
                ('the hole is in the queue unless it is empty', z3.Or(i < e, i == 1)),
                ('the predicate holds but at the hole', z3.Implies(z3.And(1 <= k, k <= e, k != i), PRED(sel(A, k)))), ('the others are kept', CNT(A, e, x) - ind(sel(A, i) == x) == CNT(A0, e, x) - ind(sel(A0, 1) == x)), ('positions beyond are kept', z3.Implies(z3.Or(z < 1, z > e), sel(A, z) == sel(A0, z)))]
    ex.inv.append((re.compile('qremove'), lambda ex, fr, L: True, Spec('sift down', {'i': I32}, inv, P, measure=lambda ex, st, R: (e + 1 - ZI(R['i']), 64), extra=lambda ex, st, R, ctx: [g for q in (2*ZI(R['i']), 2*ZI(R['i']) + 1) for _, g in inv(ex, st, R, ctx, q)])))
    s2, r = ex.call_func(m.func(ir.find(m, r'^qremove\(')), m, [T], st, ()); A = s2.mem[QQ].d
    ex.oblige('only nodes of the queue are left in it', z3.Implies(z3.And(1 <= K, K < e), PRED(sel(A, K))), s2.pc, P); ex.oblige('the first node is returned', ex.addr(r) == sel(A0, 1), s2.pc, P)
    ex.oblige('the queue is a heap again', heapq(ex, s2, QQ, e, K), s2.pc, P); ex.oblige('its length shrinks by one', field(s2, T, 'qend') == e, s2.pc, P)
    ex.fact(CNT(A, e, x) == CNT(A, e - 1, x) + ind(sel(A, e) == x), 'definition of count')
    ex.oblige('the node is removed, the others are kept', CNT(A, e - 1, x) == CNT(A0, e, x) - ind(sel(A0, 1) == x), s2.pc, P); ex.oblige('frequencies are untouched', s2.mem[ex.maps[I64]].d.eq(M), s2.pc, P)
    ex.oblige('positions beyond the queue are untouched', z3.Implies(z3.Or(z < 1, z > e), sel(A, z) == sel(A0, z)), s2.pc, P + ('C14',))
    rep.from_ex(ex, 'qremove')
def new_node(rep, m):
    for leaf in (True, False):
        ex = HeapEx(5000); st = State(); ex.init_state(st); fresh(ex); nn, f, c, a, b, z, pool = z3.Ints('T_n_nodes freq c a b z T_pool'); ex.ints.nnv |= {'freq', 'c'}
        ex.fact(z3.And(nn >= 0, f >= 0, pool > 0, c >= 0), 'pre'); T = mktree(ex, st); r0 = pool + 32*nn; ex.fact(z3.Or(z < r0, z >= r0 + 32), 'pre'); ex.fact((f > 0) if leaf else (f == 0), 'pre'); ex.fact(z3.And(a < r0, b < r0, a > 0, b > 0) if not leaf else z3.And(a == 0, b == 0), 'pre')
        if not leaf: ex.fact(z3.Or(a <= r0 - 32, a >= r0 + 32), 'nodes are 32 bytes apart'); ex.fact(z3.Or(b <= r0 - 32, b >= r0 + 32), 'nodes are 32 bytes apart')
        M = {t: ex.maps[t].init for t in ex.maps}; g = lambda s, t, x: sel(ex.memof(s, ex.maps[t]).d, x)
        s2, r = ex.call_func(m.func(ir.find(m, r'^new_node\(')), m, [T, f if leaf else 0, c, ex.hp(a), ex.hp(b)], st, ()); nm = 'a leaf' if leaf else 'an inner node'; I8 = ('i', 8); PT = ('p',)
        need = lambda n, goal: ex.oblige('%s: %s' % (nm, n), goal, s2.pc, P)
        need('the next node of the pool is returned', ex.addr(r) == r0); need('the node count grows by one', field(s2, T, 'n_nodes') == nn + 1)
        if leaf: need('symbol, weight and kind are stored', z3.And(g(s2, I32, r0 + 28) == c, g(s2, I64, r0 + 16) == f, g(s2, I8, r0 + 24) == 1)); need('it has no children', z3.And(g(s2, PT, r0) == sel(M[PT], r0), g(s2, PT, r0 + 8) == sel(M[PT], r0 + 8)))
        else: need('the children, the sum of their weights and the kind are stored', z3.And(g(s2, PT, r0) == a, g(s2, PT, r0 + 8) == b, g(s2, I64, r0 + 16) == sel(M[I64], a + 16) + sel(M[I64], b + 16), g(s2, I8, r0 + 24) == 0))
        for t in M: need('nothing else is written (%s)' % '.'.join(map(str, t)), g(s2, t, z) == sel(M[t], z))
        rep.from_ex(ex, 'new_node')
OCC = z3.Function('occurrences', z3.ArraySort(IntS, IntS), IntS, IntS, IntS)      # occ(s, i, X): how often X is among the first i symbols
PAR = z3.Function('parents', z3.ArraySort(IntS, IntS), IntS, IntS, IntS)          # parents(children map, node count, x): child links to x
def init(rep, m):
    """The driver over the contracts of new_node, qinsert, qremove, build_code. Invariants are stated at an arbitrary position K, address x, symbol X."""
    ex = HeapEx(10000); st = State(); ex.init_state(st); fresh(ex); QQ = ex.parr('qq'); S, N, X, x, pool = z3.Const('s', z3.ArraySort(IntS, IntS)), Int('length'), Int('X'), Int('x'), Int('T_pool'); ex.ints.nnv |= {'length', 'X'}
    src = buf(ex, 's', I32); src.ro = True; src.init = S; PT, I8 = ('p',), ('i', 8); T = mktree(ex, st, qq=Ptr(QQ, 0, 8)); sn, an = Int('T_stateNum'), Int('T_allNodes'); setfield(st, T, 'qend', 1); setfield(st, T, 'n_nodes', 0)
    for c in (N >= 0, sn >= 1, an == 2*sn, pool > 0, 0 <= X, X < sn, OCC(S, z3.IntVal(0), X) == 0, OCC(S, N, X) >= 0, K >= 1): ex.fact(c, 'pre')
    G = Obj('leaves_with_X', 'cells', 8); st.mem[G] = Mem('cells', {0: (I64, 0)}); need = lambda s, nm, g, pr=P: ex.oblige(nm, g, s.pc, pr)
    occ = lambda i: OCC(S, i, X)
    def lo(ex_, s, p, ty):
        i = p.idx; src.on_load = None; v = ex.load(s, p, ty); src.on_load = lo; ex.oblige('reads of the symbols stay in range', z3.And(ZI(i) >= 0, ZI(i) < N), s.pc, ('C14',))
        ex.fact(z3.And(ZI(v) >= 0, ZI(v) < sn), 'pre: symbols are within the table'); ex.fact(z3.Implies(z3.And(ZI(i) >= 0, ZI(i) < N), OCC(S, ZI(i) + 1, X) == OCC(S, ZI(i), X) + ind(ZI(v) == X)), 'definition of occurrences'); ex.fact(OCC(S, ZI(i), X) >= 0, 'definition of occurrences'); return v
    src.on_load = lo; FR = []
    def mall(ex_, st_, ins, A, dem): pass
    Q = lambda s: ex.memof(s, QQ).d; Ms = lambda s, t: ex.memof(s, ex.maps[t]).d; nnode = lambda s: ZI(field(s, T, 'n_nodes')); qend = lambda s: ZI(field(s, T, 'qend'))
    def isnode(s, a): return z3.And(a >= pool, a < pool + 32*nnode(s), (a - pool) % 32 == 0)
    def queue(s, k, kk=None): return z3.Implies(z3.And(1 <= k, k < qend(s)), isnode(s, sel(Q(s), k)))
    def setarr(s, o, v): s.mem[o] = Mem('arr', v); o.stored = True
    def hnew(ex_, fr, s, ins, A, dem):
        _, f, c, a, b = A; nn = nnode(s); r = pool + 32*nn; f0 = isc(f) and f == 0
        need(s, 'the pool has room for another node', z3.And(nn >= 0, nn < 2*an), ('C14',) + P); M = {t: Ms(s, t) for t in ex.maps}; st_ = lambda t, off, v: setarr(s, ex.maps[t], z3.Store(Ms(s, t), r + off, ZI(v)))
        if f0:
            a, b = ex.addr(a), ex.addr(b); need(s, 'two nodes of the pool are merged', z3.And(isnode(s, a), isnode(s, b))); st_(PT, 0, a); st_(PT, 8, b); fr_ = Int(ex.fresh_name('freq')); ex.ints.nnv.add(fr_.decl().name()); ex.fact(fr_ == sel(M[I64], a + 16) + sel(M[I64], b + 16), 'contract of new_node'); st_(I64, 16, fr_); st_(I8, 24, 0); merged.append((a, b, s.pc))
            need(s, 'two different nodes are merged', a != b)
        else:
            need(s, 'a leaf weighs as often as its symbol occurs', z3.And(ZI(f) > 0, z3.Implies(ZI(c) == X, ZI(f) == occ(N)))); need(s, 'a leaf has no children', ex.addr(a) == 0)
            st_(I64, 16, f); st_(I8, 24, 1); st_(I32, 28, c); g = s.mem[G].d[0][1]; s.mem[G] = Mem('cells', {0: (I64, ex.ints.ite(ZI(c) == X, padd(g, 1), g))})
        setfield(s, T, 'n_nodes', nn + 1)
        P0, P1 = Ms(s, PT), M[PT]; ex.fact(PAR(Ms(s, PT), nn + 1, x) == PAR(M[PT], nn, x) + (ind(a == x) + ind(b == x) if f0 else 0), 'definition of parents'); return ex.hp(r)
    merged = []
    def arr2(nm): return z3.Const(ex.fresh_name(nm), z3.ArraySort(IntS, IntS))
    def hins(ex_, fr, s, ins, A, dem):
        n = ex.addr(A[1]); A0, qe = Q(s), qend(s); need(s, 'qinsert: the queue is a heap', z3.And(qe >= 1, heapq(ex, s, QQ, qe, K))); need(s, 'qinsert: a node of the pool is inserted', isnode(s, n)); need(s, 'the queue has room', z3.And(qe >= 1, qe <= 2*an), ('C14',)); A1 = arr2('qq'); setarr(s, QQ, A1); setfield(s, T, 'qend', qe + 1); c = 'contract of qinsert'
        ex.fact(heapq(ex, s, QQ, qe + 1, K), c); ex.fact(CNT(A1, qe, x) == CNT(A0, qe - 1, x) + ind(n == x), c)
        for k in (K, K/2, z3.IntVal(1), z3.IntVal(2), z3.IntVal(3)): ex.fact(z3.Implies(z3.And(1 <= k, k < qe + 1), isnode(s, sel(A1, k))), c)
        return None
    def hrem(ex_, fr, s, ins, A, dem):
        A0, qe = Q(s), qend(s); need(s, 'qremove: the queue is a heap', z3.And(qe >= 2, heapq(ex, s, QQ, qe, K))); need(s, 'qremove: it holds nodes of the pool', queue(s, K)); A1 = arr2('qq'); setarr(s, QQ, A1); setfield(s, T, 'qend', qe - 1); c = 'contract of qremove'; r = Int(ex.fresh_name('min')); M = Ms(s, I64)
        ex.fact(z3.And(r == sel(A0, 1), isnode(s, r)), c); ex.fact(heapq(ex, s, QQ, qe - 1, K), c)
        for y in (x, r): ex.fact(CNT(A1, qe - 2, y) == CNT(A0, qe - 1, y) - ind(r == y), c); ex.fact(CNT(A0, qe - 1, y) <= 1, 'invariant (each node is queued at most once), at the node removed')
        ex.fact(z3.Implies(qe >= 3, CNT(A1, qe - 2, sel(A1, 1)) >= 1), 'definition of count'); ex.fact(CNT(A1, qe - 2, r) >= 0, 'definition of count')
        for k in (K, K/2, z3.IntVal(1), z3.IntVal(2), z3.IntVal(3)): ex.fact(z3.Implies(z3.And(1 <= k, k < qe - 1), z3.And(isnode(s, sel(A1, k)), sel(M, r + 16) <= sel(M, sel(A1, k) + 16))), c)
        for p in rems[-1:]:
            # the second of a pair: its result was in the queue after the first removal
            ex.fact(z3.Implies(r == p, CNT(A0, qe - 1, p) >= 1), 'definition of count')
        rems.append(r); return ex.hp(r)
    rems = []; bc = []
    def hbuild(ex_, fr, s, ins, A, dem): bc.append((A, s.pc, s)); need(s, 'codes are built from the last node left', z3.Implies(qend(s) >= 2, z3.And(qend(s) == 2, ex.addr(A[1]) == sel(Q(s), 1)))); need(s, 'with the empty word', z3.And(ZI(A[2]) == 0, ZI(A[3]) == 0, ZI(A[4]) == 0)); return None
    for rx, h in ((r'^new_node\(', hnew), (r'^qinsert\(', hins), (r'^qremove\(', hrem), (r'^build_code\(', hbuild)): ex.contracts.append((re.compile(rx), h))
    def freqo(s):
        o = ex.allocs[0]
        if ex.memof(s, o).kind == 'raw': ex.to_arr(s, o, I64)
        return ex.memof(s, o).d
    def nonneg(ex_, s, R, ctx):
        o = ex.allocs[0]
        def h(ex__, s_, p, ty):
            o.on_load = None; v = ex.load(s_, p, ty); o.on_load = h; j = p.idx
            if p.es == 8: ex.fact(z3.Implies(z3.And(ZI(j) >= 0, ZI(j) < an), ZI(v) >= 0), 'invariant of the counting loop, at the entry read')
            return v
        o.on_load = h; return []
    def cinv(ex_, s, R, ctx):
        i = ZI(R['i']); Fq = freqo(s); return [('in range', z3.And(i >= 0, i <= N)), ('occurrences counted', z3.Select(Fq, X) == occ(i)), ('no other entry', z3.Implies(z3.And(K >= sn, K < an), z3.Select(Fq, K) == 0)), ('counts are not negative', z3.Implies(z3.And(K >= 0, K < an), z3.Select(Fq, K) >= 0))]
    base = lambda s: [('the queue is a heap', heapq(ex, s, QQ, qend(s), K)), ('it holds nodes of the pool', z3.And(queue(s, K), queue(s, z3.IntVal(1)))), ('each node is either queued once or has one parent', z3.And(CNT(Q(s), qend(s) - 1, x) + PAR(Ms(s, PT), nnode(s), x) == ind(isnode(s, x)), CNT(Q(s), qend(s) - 1, x) >= 0, PAR(Ms(s, PT), nnode(s), x) >= 0))]
    def linv(ex_, s, R, ctx):
        i = ZI(R['i']); g = s.mem[G].d[0][1]; return base(s) + [('in range', z3.And(i >= 0, i <= an, nnode(s) == qend(s) - 1, nnode(s) >= 0, nnode(s) <= i)), ('one leaf for every symbol that occurs', ZI(g) == ind(z3.And(X < i, occ(N) > 0))), ('none is queued before', z3.Implies(ZI(g) > 0, qend(s) >= 2))]
    L0 = [None]
    def minv(ex_, s, R, ctx):
        if 'n0' not in ctx: ctx['n0'] = nnode(s) + qend(s)
        g = s.mem[G].d[0][1]; return base(s) + [('nodes and queue add up', z3.And(nnode(s) + qend(s) == ctx['n0'], qend(s) >= 1, nnode(s) >= 0, ctx['n0'] <= 2*an + 1)), ('the leaves stay', ZI(g) == ind(occ(N) > 0)), ('the queue is not emptied', z3.Implies(ZI(g) > 0, qend(s) >= 2))]
    def mat(ex_, s, R, ctx):
        # the invariant at the second smallest and at the positions the heap operations look at
        return [queue(s, k) for k in (K/2, z3.IntVal(2), z3.IntVal(3))]
    calls = lambda fr, Lp, what: any(i.op == 'call' and what + '(' in ex.demname(str(i.a[0])) for b in Lp.body for i in fr.fn.blocks[b].ins)
    which = lambda fr, Lp: 'm' if calls(fr, Lp, 'qremove') else 'l' if calls(fr, Lp, 'new_node') or calls(fr, Lp, 'qinsert') else 'c'
    ex.which = which
    for k, sp in (('c', Spec('counting', {'i': I64}, cinv, P, measure=lambda ex_, s, R: (N - ZI(R['i']), 64))), ('l', Spec('leaves', {'i': I64}, linv, P, measure=lambda ex_, s, R: (an - ZI(R['i']), 64), extra=lambda ex_, s, R, ctx: nonneg(ex_, s, R, ctx) + [queue(s, K/2)])), ('m', Spec('merging', {}, minv, P, measure=lambda ex_, s, R: (qend(s), 64), extra=mat))):
        ex.inv.append((re.compile(r'^init\('), lambda ex_, fr, Lp, k=k: which(fr, Lp) == k, sp))
    ex.fact(z3.And(CNT(QQ.init, z3.IntVal(0), x) == 0, PAR(ex.maps[PT].init, z3.IntVal(0), x) == 0), 'definition of count and parents')
    s2, _ = ex.call_func(m.func(ir.find(m, r'^init\(')), m, [T, Ptr(src, 0, 4), N], st, ())
    need(s2, 'codes are built once', len(bc) == 1); need(s2, 'the tree has exactly one leaf for a symbol that occurs, none for another', s2.mem[G].d[0][1] == ind(occ(N) > 0))
    need(s2, 'every node but the root has exactly one parent', z3.Implies(z3.And(isnode(s2, x), qend(s2) == 2, x != sel(Q(s2), 1), CNT(Q(s2), z3.IntVal(1), x) == ind(sel(Q(s2), 1) == x)), PAR(Ms(s2, PT), nnode(s2), x) == 1))
    rep.from_ex(ex, 'init')
