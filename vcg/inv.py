"""Loops cut by stated invariants. The invariant is a function of the loop-carried values; which SSA value plays which role is
found by trying the assignments of matching type, so that renamed or reordered variables do not matter."""
import z3, itertools
from .sym import *
from .exe import Ex, LoopRec, z3_bv
from .loops import run_pass, classify, finish, region_from, header_concrete
from . import loops

class Spec:
    """roles: {name: type} (of header phis) ; inv(ex, st, roles, ctx) -> [(name, formula)] ; measure(ex, st, roles) -> (term, width) decreasing, unsigned, optional
    pick: optional filter (ex, name, value, role) on initial values; props: properties the invariant obligations belong to"""
    def __init__(s, name, roles, inv, props=(), measure=None, pick=None, tag=None, extra=None): s.name, s.roles, s.inv, s.props, s.measure, s.pick, s.tag, s.extra = name, roles, inv, tuple(props), measure, pick, tag, extra
class Hook:
    def __init__(s, f): s.f = f
    def assume(s, P): s.f(P)
def forced(s, fr, L, st0, phi0, rets, limit):
    """unrolls while another iteration is feasible; None when the bound does not suffice"""
    sn = s.snapshot(); outs = []; nr = len(rets); cur = (st0, phi0)
    for it in range(limit + 1):
        b, o, r = region_from(s, fr, L, cur[0], cur[1], rets); outs += o
        b = [e for e in b if s.feasible(e.st.pc)]
        if not b: return outs
        m = s.merge([(e.st, e.phi) for e in b])
        if m is None: return outs
        cur = m
    s.restore(sn); del rets[nr:]; return None
def changed(s, fr, L, st0, phi0):
    """variables the loop may change: fixpoint over passes with everything found so far havocked"""
    cls = {}; maxid = Obj._n
    tys = {i.name: i.ty for i in fr.fn.blocks[L.header].ins if i.op == 'phi'}
    for _ in range(8):
        sn = s.snapshot(); s.quiet += 1
        try: P = run_pass(s, fr, L, st0, phi0, cls)
        finally: s.quiet -= 1
        new = dict(cls)
        for k, v in phi0.items(): new[('phi', k)] = ('fresh', None, tys[k])
        for st in [P.bm[0]] if P.bm else []:
            for o, m in st.mem.items():
                if o.id > maxid or o.kind == 'glob': continue
                hm = P.hst.mem.get(o)
                if hm is m: continue
                if m.kind == 'arr':
                    if hm is not None and hm.kind == 'arr' and hm.d.eq(m.d): continue
                    if hm is None and not o.stored: continue
                    new[('arr', o)] = ('arr',)
                elif m.kind == 'cells':
                    for k, (t, x) in m.d.items():
                        h = hm.d.get(k) if hm is not None and hm.kind == 'cells' else None
                        if h is None or h[0] != t or not same(h[1], x): new[('cell', o, k)] = ('fresh', None, t)
                elif m.kind == 'raw' and not (hm is not None and hm.kind == 'raw' and hm.d == m.d): raise Unsupported("untyped memory changed in a loop")
        s.restore(sn)
        if set(new) == set(cls) : return cls
        cls = new
    raise Unsupported("loop state")
def invloop(s, fr, L, st0, phi0, rets, spec):
    cls = changed(s, fr, L, st0, phi0)
    tys = {i.name: i.ty for i in fr.fn.blocks[L.header].ins if i.op == 'phi'}
    cands = []
    for r, ty in spec.roles.items():
        ks = [k for k in phi0 if tys[k] == ty and (spec.pick is None or spec.pick(s, k, phi0[k], r))]
        if not ks: raise Unsupported("%s: no loop variable for %s" % (spec.name, r))
        cands.append(ks)
    key = ('roles', spec.name, fr.path, fr.fn.name, L.header); order = [c for c in itertools.product(*cands) if len(set(c)) == len(c)]
    # prefer assignments by name when the role carries the source name
    order.sort(key=lambda c: -sum(1 for r, k in zip(spec.roles, c) if k.strip('%').split('.')[0] == r))
    if key in s.cache: order = [s.cache[key]]
    only = s.only; best = None
    for c in order[:24]:
        sn = s.snapshot(); nr = len(rets); nl = len(s.logs[-1]); nc = len(s.recs[-1]); fails = []
        s.only = None
        try:
            ok, outs = attempt(s, fr, L, st0, phi0, rets, spec, cls, dict(zip(spec.roles, c)), fails)
        finally: s.only = only
        if ok:
            s.cache[key] = c; return outs
        if best is None or len(fails) < best[0]: best = (len(fails), c, fails)
        s.restore(sn); del rets[nr:]; del s.logs[-1][nl:]; del s.recs[-1][nc:]
    if best is None: raise Unsupported("%s: no assignment of roles" % spec.name)
    # keep the best assignment so that the failing obligation is reported
    ok, outs = attempt(s, fr, L, st0, phi0, rets, spec, cls, dict(zip(spec.roles, best[1])), [], True)
    return outs
def soft(s, name, goal, pc, props, fails):
    if s.quiet:
        if not s.holds(goal, pc): fails.append(name)
        return
    r = s.oblige(name, goal, pc, props)
    if not r: s.obls[-1].soft = True; fails.append(name)
def attempt(s, fr, L, st0, phi0, rets, spec, cls, roles, fails, final=False):
    ctx = {}
    for nm, g in spec.inv(s, st0, {r: phi0[k] for r, k in roles.items()}, ctx): soft(s, "%s: invariant '%s' holds on entry" % (spec.name, nm), g, st0.pc, spec.props, fails)
    if fails and not final: return False, None
    def assume(P):
        P.inv0 = spec.inv(s, P.hst, {r: P.hphi[k] for r, k in roles.items()}, ctx)
        for nm, g in P.inv0:
            if g is not True: s.fact(g, 'invariant')
        if spec.extra: 
            for g in spec.extra(s, P.hst, {r: P.hphi[k] for r, k in roles.items()}, ctx): s.fact(g, 'invariant')
    P = run_pass(s, fr, L, st0, phi0, cls, assume=assume)
    if P.bm is not None:
        bst, bphi = P.bm
        for nm, g in spec.inv(s, bst, {r: bphi[k] for r, k in roles.items()}, ctx): soft(s, "%s: invariant '%s' is preserved" % (spec.name, nm), g, bst.pc, spec.props, fails)
        if spec.measure is not None:
            a, w = spec.measure(s, P.hst, {r: P.hphi[k] for r, k in roles.items()}); b, _ = spec.measure(s, bst, {r: bphi[k] for r, k in roles.items()})
            soft(s, "%s: the loop terminates" % spec.name, s.ints.icmp('ult', b, a, w), bst.pc, ('C14',), fails)
    if fails and not final: return False, None
    return not fails, finish(s, fr, L, st0, phi0, cls, P, rets)
