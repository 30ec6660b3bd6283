"""std::vector<bool>: an array of bytes 0/1 (contracts of the constructor, operator[], _Bit_reference, the destructor)"""
import re, z3
from .sym import *
from .exe import NOTHANDLED
I8 = ('i', 8)
def contracts(ex, made):
    def ctor(ex, fr, st, ins, A, dem):
        if len(A) < 3 or 'vector(unsigned long' not in dem: raise Unsupported("constructor " + dem)
        o = Obj('flags', 'arr', A[1], I8); v = ex.load(st, A[2], I8); o.init = z3.K(IntS, ZI(v)); o.size = A[1]; st.mem[o] = Mem('arr', o.init); o.stored = True
        ex.store(st, A[0], Ptr(o, 0, 1), ('p',)); made.append((o, A[1])); return None
    def index(ex, fr, st, ins, A, dem):
        p = ex.load(st, A[0], ('p',)); return Agg([Ptr(p.obj, padd(p.idx, A[1]), 1), 1])
    def ref(st, p): return ex.load(st, p, ('p',))
    def get(ex, fr, st, ins, A, dem): return bnot(ex.ints.icmp('eq', ex.load(st, ref(st, A[0]), I8), 0, 8))
    def put(ex, fr, st, ins, A, dem):
        v = A[1]; v = v if not isinstance(v, bool) else int(v)
        if isinstance(v, z3.ExprRef) and z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        ex.store(st, ref(st, A[0]), v, I8); return A[0]
    def nop(ex, fr, st, ins, A, dem): return None
    ex.contracts += [(re.compile(r'^std::vector<bool, .*>::vector\('), ctor), (re.compile(r'^std::vector<bool, .*>::operator\[\]'), index), (re.compile(r'^std::_Bit_reference::operator bool'), get),
                     (re.compile(r'^std::_Bit_reference::operator=\(bool'), put), (re.compile(r'^std::vector<bool, .*>::~vector|^std::_Bvector_base<.*>::~_Bvector_base|^std::allocator<bool>::'), nop)]
