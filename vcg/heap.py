"""Linked structures: addresses are integers, one map per scalar type (type-separated heap, strict aliasing); arrays of pointers are arrays of addresses."""
import z3
from .sym import *
from .exe import Ex
class HeapEx(Ex):
    def __init__(s, timeout=20000, fp=UF, ints=IntMath):
        Ex.__init__(s, fp=fp, ints=ints, timeout=timeout); s.H = Obj('heap', 'heap'); s.maps = {}; s.abs_ptr_arr = {}
        s.brk = Obj('brk', 'cells'); s.newblocks = []
        for t in (('p',), ('i', 8), ('i', 16), ('i', 32), ('i', 64)):
            o = Obj('M_' + ''.join(map(str, t)), 'arr', None, ('i', 64) if t == ('p',) else t); o.init = z3.Const(o.name, s.arrsort(o.ety)); s.maps[t] = o
    def init_state(s, st, brk=None):
        st.mem[s.brk] = Mem('cells', {0: (('i', 64), (z3.BitVec('brk0', 64) if s.ints.__class__ is IntBV else z3.Int('brk0')) if brk is None else brk)})
        for o in s.maps.values(): st.mem[o] = Mem('arr', o.init)
    def hp(s, a): return Ptr(s.H, a, 1)
    def parr(s, nm):
        """an array of node pointers"""
        o = Obj(nm, 'arr', None, ('i', 64)); o.ptrs = True; o.init = z3.Const(nm, s.arrsort(o.ety)); return o
    def addr(s, p):
        if p is UNDEF: return s.ints.fresh('undefp', 64)
        if isinstance(p, PtrIte): return s.ints.ite(p.c, s.addr(p.a), s.addr(p.b))
        if p.obj is None: return 0
        if p.obj is s.H: return p.byteoff()
        if getattr(p.obj, 'haddr', None) is not None: return padd(p.obj.haddr, p.byteoff())
        raise Unsupported("address of %s" % p.obj)
    def ite(s, c, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is not b.obj and s.H in (a.obj, b.obj):
            if isinstance(c, bool): return a if c else b
            return s.hp(s.ints.ite(c, s.addr(a), s.addr(b)))
        return Ex.ite(s, c, a, b)
    def pcmp(s, pr, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and s.H in (a.obj, b.obj): return s.ints.icmp(pr, s.addr(a), s.addr(b), 64)
        return Ex.pcmp(s, pr, a, b)
    def load(s, st, p, ty, ins=None):
        if isinstance(p, Ptr) and p.obj is s.H:
            o = s.maps[ty]; v = s.sel(s.memof(st, o).d, p.byteoff(), st)
            hk = getattr(s, 'on_hload', None)
            if hk: hk(st, p.byteoff(), ty)
            return s.hp(v) if ty == ('p',) else v
        if isinstance(p, Ptr) and getattr(p.obj, 'ptrs', False) and ty == ('p',):
            q = s.rescale(p, 8)
            if q is None: raise Unsupported("unaligned pointer load")
            h = getattr(p.obj, 'on_pload', None)
            if h: h(s, st, q.idx)
            v = s.sel(s.memof(st, p.obj).d, q.idx, st); w = getattr(p.obj, 'wrap', None)
            return w(v) if w else s.hp(v)
        return Ex.load(s, st, p, ty, ins)
    def store(s, st, p, v, ty, ins=None):
        if isinstance(p, Ptr) and p.obj is s.H:
            o = s.maps[ty]; o.stored = True; x = s.addr(v) if ty == ('p',) else s.num(v, ty)
            hk = getattr(s, 'on_hstore', None)
            if hk: hk(st, p.byteoff(), ty, x)
            st.mem[o] = Mem('arr', z3.Store(s.memof(st, o).d, s.ints.lift(p.byteoff(), 64), s.lift(x, o.ety))); s.logit(('st', o, p.byteoff(), st.pc, x)); return
        if isinstance(p, Ptr) and getattr(p.obj, 'ptrs', False) and ty == ('p',):
            q = s.rescale(p, 8); o = p.obj; o.stored = True
            if q is None: raise Unsupported("unaligned pointer store")
            A0 = s.memof(st, o).d; x = s.lift(s.addr(v), ('i', 64)); A1 = z3.Store(A0, s.ints.lift(q.idx, 64), x); st.mem[o] = Mem('arr', A1)
            hk = getattr(o, 'on_pstore', None)
            if hk: hk(st, A0, q.idx, x, A1)
            s.logit(('st', o, q.idx, st.pc, v)); return
        return Ex.store(s, st, p, v, ty, ins)
    def malloc(s, st, size, nm, ins):
        if getattr(s, 'heap_malloc', False):
            a = s.ints.fresh('blk', 64); b = s.ints.lift(st.mem[s.brk].d[0][1], 64)
            if z3.is_bv(a): e = a + s.ints.lift(size, 64); s.fact(z3.And(z3.UGE(a, b), a != 0, z3.UGT(e, a), z3.ULT(e, 1 << 63)), 'fresh block')
            else: e = padd(a, size); s.fact(z3.And(a >= b, a > 0), 'fresh block'); s.ints.nnv.add(a.decl().name())
            st.mem[s.brk] = Mem('cells', {0: (('i', 64), e)}); return s.hp(a)
        return Ex.malloc(s, st, size, nm, ins)
# ------------------------------------------------------------------ struct HuffmanTree as it is laid out (checked against the source by offsets.cpp)
TREE = dict(stateNum=(0, ('i', 32)), allNodes=(4, ('i', 32)), pool=(8, ('p',)), qqq=(16, ('p',)), qq=(24, ('p',)), n_nodes=(32, ('i', 32)), qend=(36, ('i', 32)), code=(40, ('p',)), cout=(48, ('p',)), n_inode=(56, ('i', 32)))
NODE = dict(left=0, right=8, freq=16, t=24, c=28, size=32)
