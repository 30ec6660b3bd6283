"""Mechanical extraction: /repo's sources -> LLVM IR (clang, unoptimised front-end output) -> SSA (opt: inline, sroa,
early-cse, simplifycfg, loop-simplify) -> Python structures.  Nothing is dropped except debug/TBAA metadata and
lifetime markers."""
import os, re, subprocess, hashlib, struct
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build", "ir")
CLANG = ["clang++-18", "-std=c++11", "-include", "cassert", "-include", "cstdint", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions",
         "-ffp-contract=off", "-fno-discard-value-names", "-fno-math-errno", "-w", "-S", "-emit-llvm"]
CLANGC = None

class ExtractError(Exception): pass

# ---------------------------------------------------------------- types
def tsize(t):
    k = t[0]
    if k == 'i': return max(1, t[1] // 8) if t[1] != 1 else 1
    if k == 'f': return t[1] // 8
    if k == 'p': return 8
    if k == 'a': return t[1] * tsize(t[2])
    if k == 's':
        o = 0
        for f in t[1]:
            a = 1 if t[2] else talign(f); o = (o + a - 1) // a * a + tsize(f)
        a = 1 if t[2] else talign(t); return (o + a - 1) // a * a
    raise ExtractError("size of %r" % (t,))
def talign(t):
    k = t[0]
    if k == 'a': return talign(t[2])
    if k == 's': return 1 if t[2] else max([talign(f) for f in t[1]] or [1])
    return tsize(t)
def foff(t, i):
    o = 0
    for n, f in enumerate(t[1]):
        a = 1 if t[2] else talign(f); o = (o + a - 1) // a * a
        if n == i: return o
        o += tsize(f)
    raise ExtractError("field")

TOK = re.compile(r'''\s*(?:(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<loc>%(?:[\w.$-]+|"[^"]*"))|(?P<glob>@(?:[\w.$-]+|"[^"]*"))|(?P<meta>![\w.]*)|(?P<hex>0x[HKLMR]?[0-9A-Fa-f]+)|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|(?P<id>[A-Za-z_.$][\w.$-]*)|(?P<attr>\#\d+)|(?P<p>\.\.\.|[()\[\]{}<>,=*:]))''')
def tokenize(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            raise ExtractError("tokenize: " + s[i:i+60])
        k = m.lastgroup; out.append((k, m.group(k))); i = m.end()
    return out
class P:
    def __init__(s, mod, toks): s.m, s.t, s.i = mod, toks, 0
    def peek(s, k=0): return s.t[s.i+k] if s.i+k < len(s.t) else (None, None)
    def nxt(s): r = s.t[s.i]; s.i += 1; return r
    def acc(s, v):
        if s.peek()[1] == v: s.i += 1; return True
        return False
    def exp(s, v):
        if not s.acc(v): raise ExtractError("expected %s got %s in %s" % (v, s.peek(), " ".join(x[1] for x in s.t)[:200]))
    def type(s):
        k, v = s.nxt()
        if k == 'id':
            if v == 'ptr': t = ('p',)
            elif v == 'void': t = ('v',)
            elif v == 'float': t = ('f', 32)
            elif v == 'double': t = ('f', 64)
            elif v == 'x86_fp80': t = ('f', 128)
            elif re.match(r'i\d+$', v): t = ('i', int(v[1:]))
            elif v in ('metadata', 'label', 'token'): t = (v,)
            elif v == 'opaque': t = ('s', (), False)
            else: raise ExtractError("type " + v)
        elif v == '[':
            n = int(s.nxt()[1]); s.exp('x'); e = s.type(); s.exp(']'); t = ('a', n, e)
        elif v == '{':
            fs = []
            if not s.acc('}'):
                fs.append(s.type())
                while s.acc(','): fs.append(s.type())
                s.exp('}')
            t = ('s', tuple(fs), False)
        elif v == '<':
            if s.peek()[1] == '{':
                s.nxt(); fs = []
                if not s.acc('}'):
                    fs.append(s.type())
                    while s.acc(','): fs.append(s.type())
                    s.exp('}')
                s.exp('>'); t = ('s', tuple(fs), True)
            else:
                n = int(s.nxt()[1]); s.exp('x'); e = s.type(); s.exp('>'); t = ('vec', n, e)
        elif k == 'loc':
            t = s.m.types.get(v)
            if t is None: t = s.m.resolve_type(v)
        else: raise ExtractError("type token %s" % v)
        if s.peek()[1] == '(' and t[0] in ('v', 'i', 'p', 'f', 's') and s.fnty: # function type
            d = 0
            while True:
                x = s.nxt()[1]
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
        return t
    fnty = False
    def val(s, t):
        k, v = s.nxt()
        if k == 'loc': return ('loc', v)
        if k == 'num':
            if t[0] == 'f': return ('fc', fbits(float(v), t[1]), t[1])
            return ('ic', int(v))
        if k == 'hex':
            b = int(v[2:], 16) if v[2] not in 'HKLMR' else None
            if b is None: return ('fc', v, t[1])
            if t[0] == 'f' and t[1] == 32: # hex is of the double
                d = struct.unpack('<d', struct.pack('<Q', b))[0]
                try: fb = struct.unpack('<I', struct.pack('<f', d))[0]
                except OverflowError: fb = 0x7f800000 | ((b >> 32) & 0x80000000)
                return ('fc', fb, 32)
            return ('fc', b, t[1])
        if k == 'glob': return ('glob', v)
        if k == 'id':
            if v in ('null', 'none'): return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'true': return ('ic', 1)
            if v == 'false': return ('ic', 0)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'getelementptr':
                s.acc('inbounds'); s.exp('('); bt = s.type(); s.exp(','); pt = s.type(); base = s.val(pt); idx = []
                while s.acc(','):
                    s.acc('inrange')
                    it = s.type(); idx.append((it, s.val(it)))
                s.exp(')'); return ('cgep', bt, base, idx)
        if k == 'str': return ('bytes', v)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]; el = []
            if v == '<' and s.peek()[1] == '{':
                s.nxt(); close = '}'
            if not s.acc(close):
                while True:
                    et = s.type(); el.append((et, s.val(et)))
                    if not s.acc(','): break
                s.exp(close)
            if v == '<' and close == '}': s.exp('>')
            return ('agg', el)
        raise ExtractError("value %s %s" % (k, v))
    def skip_attrs(s):
        while True:
            k, v = s.peek()
            if k == 'id' and v in ('noundef','nonnull','zeroext','signext','noalias','nocapture','returned','readonly','writeonly','readnone','immarg','inreg','nofree','allocptr','noalias','allocalign','dead_on_unwind','writable'): s.nxt()
            elif k == 'id' and v in ('align',): s.nxt(); s.nxt()
            elif k == 'id' and v in ('dereferenceable','dereferenceable_or_null','sret','byval','align','elementtype','captures','range'):
                s.nxt(); d = 0
                if s.peek()[1] == '(':
                    while True:
                        x = s.nxt()[1]
                        d += x == '('; d -= x == ')'
                        if d == 0: break
            else: return

def fbits(x, w):
    if w == 32:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    return struct.unpack('<Q', struct.pack('<d', x))[0]
def fval(b, w):
    if w == 32: return struct.unpack('<f', struct.pack('<I', b))[0]
    return struct.unpack('<d', struct.pack('<Q', b))[0]

class Inst:
    __slots__ = ('op', 'name', 'ty', 'a', 'txt')
    def __init__(s, op, name, ty, a, txt): s.op, s.name, s.ty, s.a, s.txt = op, name, ty, a, txt
    def __repr__(s): return s.txt.strip()
class Block:
    def __init__(s, name): s.name, s.ins, s.succ, s.pred = name, [], [], []
class Func:
    def __init__(s, name): s.name, s.params, s.ret, s.blocks, s.order = name, [], None, {}, []

class Module:
    def __init__(s, text):
        s.types, s.funcs, s.globs, s.decls, s._tdef, s._lazy = {}, {}, {}, {}, {}, {}
        lines = text.splitlines(); i = 0; s.lines = lines
        for ln in lines:
            m = re.match(r'(%(?:[\w.$-]+|"[^"]*")) = type (.*)$', ln)
            if m: s._tdef[m.group(1)] = m.group(2)
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                m = re.search(r'@((?:[\w.$-]+)|"[^"]*")\(', ln)
                s._lazy[m.group(1).strip('"')] = (i, j, lines); i = j
            elif ln.startswith('@'):
                m = re.match(r'(@(?:[\w.$-]+|"[^"]*")) = (.*)$', ln); s.globs[m.group(1)] = m.group(2)
            i += 1
    def resolve_type(s, v):
        d = s._tdef.get(v)
        if d is None: raise ExtractError("unknown type " + v)
        if d == 'opaque': t = ('s', (), False)
        else: t = P(s, tokenize(d)).type()
        s.types[v] = t; return t
    def names(s): return list(s._lazy)
    def func(s, name):
        if name in s.funcs: return s.funcs[name]
        if name not in s._lazy: return None
        i, j, lines = s._lazy[name]; f = s.parse_func(name, lines[i:j]); s.funcs[name] = f; return f
    def glob_init(s, g):
        d = s.globs.get(g)
        if d is None: return None
        m = re.search(r'\b(constant|global)\s+(.*)$', d)
        if not m: return None
        body = re.sub(r',\s*(comdat|align|section|!).*$', '', m.group(2))
        p = P(s, tokenize(body)); t = p.type()
        const = m.group(1) == 'constant' or (bool(re.match(r'(internal|private)\b', d)) and s.only_read(g))
        if p.peek()[0] is None: return t, None, const
        return t, p.val(t), const
    def only_read(s, g):
        """a variable of this file that no instruction writes and whose address goes nowhere but into loads"""
        r = re.compile(re.escape(g) + r'(?![\w.$-])')
        return all(re.match(r'\s+%\S+ = load [^,]+, ptr ' + re.escape(g) + r',', x) for x in s.lines if r.search(x) and not x.startswith(g + ' = ') and not x.lstrip().startswith(';'))
    def parse_func(s, name, lines):
        f = Func(name); h = lines[0]
        k = h.index('('); 
        mm = re.search(r'@(?:[\w.$-]+|"[^"]*")\(', h); pre, rest = h[:mm.start()], h[mm.end()-1:]
        # return type: last type token of pre
        toks = [x for x in tokenize(re.sub(r'\b(define|dso_local|linkonce_odr|weak_odr|internal|noundef|zeroext|signext|nonnull|noalias|available_externally|hidden|local_unnamed_addr|unnamed_addr|fastcc|private|external)\b|dereferenceable(_or_null)?\(\d+\)|align \d+', ' ', pre))]
        f.ret = P(s, toks).type()
        p = P(s, tokenize(rest)); p.exp('(')
        n = 0
        while not p.acc(')'):
            if p.acc('...'): continue
            t = p.type(); p.skip_attrs(); k, v = p.peek()
            if k == 'loc': p.nxt()
            else: v = '%%%d' % n
            f.params.append((v, t)); n += 1
            p.acc(',')
        cur = None
        for ln in lines[1:]:
            if not ln.strip(): continue
            m = re.match(r'^((?:[\w.$-]+)|"[^"]*"):', ln)
            if m and not ln.startswith(' '):
                cur = Block('%' + m.group(1)); f.blocks[cur.name] = cur; f.order.append(cur.name); continue
            if cur is None:
                cur = Block('%entry0'); f.blocks[cur.name] = cur; f.order.append(cur.name)
            if not ln.startswith('  '): continue
            if re.match(r'^\s+(i\d+ -?\d+, label|\])', ln): # switch continuation
                cur.ins[-1].append(ln); continue
            cur.ins.append([ln])
        for b in f.blocks.values():
            out = []
            for grp in b.ins:
                ins = s.parse_inst(" ".join(x.strip() for x in grp))
                if ins is not None: out.append(ins)
            b.ins = out; t = out[-1]
            if t.op == 'br': b.succ = [x for x in (t.a[1:] if len(t.a) == 3 else t.a)]
            elif t.op == 'switch': b.succ = [t.a[1]] + [x for _, x in t.a[2]]
        for b in f.blocks.values():
            for x in dict.fromkeys(b.succ): f.blocks[x].pred.append(b.name)
        # unnamed entry label
        return f
    def parse_inst(s, ln):
        ln = re.sub(r',\s*!(tbaa|srcloc|llvm\.[\w.]+|noundef|range|prof|nonnull|align|tbaa\.struct|heapallocsite|annotation|dereferenceable\w*|invariant\.\w+)\s+!\d+', '', ln)
        ln = re.sub(r',\s*!noundef !\{\}', '', ln); ln = re.sub(r',\s*!\w[\w.]*\s+!\d+', '', ln)
        m = re.match(r'^(%(?:[\w.$-]+|"[^"]*")) = (.*)$', ln); name = None; body = ln
        if m: name, body = m.group(1), m.group(2)
        p = P(s, tokenize(body)); k, op = p.nxt()
        if op in ('tail', 'musttail', 'notail'): op = p.nxt()[1]
        FM = ('nsw','nuw','exact','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','disjoint','nneg','inbounds','volatile')
        if op in ('add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'):
            fl = []
            while p.peek()[1] in FM: fl.append(p.nxt()[1])
            t = p.type(); a = p.val(t); p.exp(','); b = p.val(t); return Inst(op, name, t, (a, b, tuple(fl)), ln)
        if op == 'fneg':
            while p.peek()[1] in FM: p.nxt()
            t = p.type(); return Inst(op, name, t, (p.val(t),), ln)
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in FM: p.nxt()
            pr = p.nxt()[1]; t = p.type(); a = p.val(t); p.exp(','); b = p.val(t); return Inst(op, name, ('i', 1), (pr, t, a, b), ln)
        if op in ('trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast'):
            while p.peek()[1] in FM: p.nxt()
            t = p.type(); a = p.val(t); p.exp('to'); t2 = p.type(); return Inst(op, name, t2, (t, a), ln)
        if op == 'freeze':
            t = p.type(); return Inst(op, name, t, (p.val(t),), ln)
        if op == 'load':
            p.acc('volatile'); t = p.type(); p.exp(','); pt = p.type(); return Inst(op, name, t, (p.val(pt),), ln)
        if op == 'store':
            p.acc('volatile'); t = p.type(); v = p.val(t); p.exp(','); pt = p.type(); return Inst(op, name, t, (v, p.val(pt)), ln)
        if op == 'alloca':
            t = p.type(); n = ('ic', 1)
            if p.peek()[1] == ',' and p.peek(1)[1] != 'align':
                p.nxt(); nt = p.type(); n = p.val(nt)
            return Inst(op, name, t, (n,), ln)
        if op == 'getelementptr':
            while p.peek()[1] in FM: p.nxt()
            bt = p.type(); p.exp(','); pt = p.type(); base = p.val(pt); idx = []
            while p.acc(','):
                it = p.type(); idx.append((it, p.val(it)))
            return Inst(op, name, ('p',), (bt, base, idx), ln)
        if op == 'phi':
            while p.peek()[1] in FM: p.nxt()
            t = p.type(); inc = []
            while p.acc('['):
                v = p.val(t); p.exp(','); bl = p.nxt()[1]; p.exp(']'); inc.append((v, bl)); p.acc(',')
            return Inst(op, name, t, inc, ln)
        if op == 'select':
            while p.peek()[1] in FM: p.nxt()
            ct = p.type(); c = p.val(ct); p.exp(','); t = p.type(); a = p.val(t); p.exp(','); p.type(); b = p.val(t); return Inst(op, name, t, (c, a, b), ln)
        if op == 'br':
            t = p.type()
            if t == ('label',): return Inst(op, None, None, (p.nxt()[1],), ln)
            c = p.val(t); p.exp(','); p.type(); a = p.nxt()[1]; p.exp(','); p.type(); b = p.nxt()[1]; return Inst(op, None, None, (c, a, b), ln)
        if op == 'switch':
            t = p.type(); v = p.val(t); p.exp(','); p.type(); d = p.nxt()[1]; p.exp('['); cs = []
            while not p.acc(']'):
                ct = p.type(); cv = p.val(ct); p.exp(','); p.type(); cs.append((cv[1], p.nxt()[1]))
            return Inst(op, None, t, (v, d, cs), ln)
        if op == 'ret':
            t = p.type(); return Inst(op, None, t, () if t == ('v',) else (p.val(t),), ln)
        if op == 'unreachable': return Inst(op, None, None, (), ln)
        if op == 'extractvalue':
            t = p.type(); v = p.val(t); ix = []
            while p.acc(','): ix.append(int(p.nxt()[1]))
            return Inst(op, name, None, (t, v, ix), ln)
        if op == 'insertvalue':
            t = p.type(); v = p.val(t); p.exp(','); t2 = p.type(); w = p.val(t2); ix = []
            while p.acc(','): ix.append(int(p.nxt()[1]))
            return Inst(op, name, t, (v, w, ix), ln)
        if op == 'call':
            while p.peek()[1] in FM + ('fastcc',): p.nxt()
            p.skip_attrs(); p.fnty = True; t = p.type(); p.fnty = False
            if p.peek()[1] == '(' : # function type left
                pass
            k, callee = p.nxt()
            if k not in ('glob', 'loc'): raise ExtractError("call " + ln[:160])
            p.exp('('); args = []
            while not p.acc(')'):
                at = p.type(); p.skip_attrs()
                if at == ('metadata',):
                    while p.peek()[1] not in (',', ')'): p.nxt()
                    args.append((at, ('undef',)))
                else: args.append((at, p.val(at)))
                p.acc(',')
            cal = callee.strip('@"') if k == 'glob' else callee
            if cal.startswith('llvm.lifetime') or cal.startswith('llvm.dbg') or cal.startswith('llvm.assume') or cal.startswith('llvm.experimental.noalias'): return None
            return Inst('call', name, t, (cal, args, k), ln)
        raise ExtractError("instruction: " + ln[:200])

PASSES = "function(sroa,early-cse,simplifycfg<no-keep-loops>),cgscc(inline),function(sroa,early-cse<memssa>,simplifycfg<no-keep-loops>,instsimplify,early-cse,loop-simplify,lcssa)"
def _hash(*parts):
    h = hashlib.sha256()
    for x in parts: h.update(x.encode() if isinstance(x, str) else x); h.update(b'\0')
    return h.hexdigest()[:24]
def headers_hash():
    h = hashlib.sha256()
    for d in ('include', 'src'):
        for r, _, fs in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(fs):
                if f.endswith(('.hpp', '.h', '.cpp')): h.update(f.encode()); h.update(open(os.path.join(r, f), 'rb').read())
    return h.hexdigest()
def extract(src, noinline=(), inline=True, passes=None):
    """src: path of a translation unit (under /repo, or a /verif TU that only includes and instantiates /repo's code)"""
    os.makedirs(BUILD, exist_ok=True)
    key = _hash(src, open(src, 'rb').read(), headers_hash(), repr(sorted(noinline)), repr(inline), passes or PASSES, " ".join(CLANG), REPO)
    out = os.path.join(BUILD, key + ".ll")
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        p = subprocess.run(CLANG + ["-I" + REPO + "/include", "-I" + REPO + "/src", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise ExtractError("clang: " + p.stdout[-1500:])
        txt = open(tmp).read(); lines = txt.splitlines(); pats = [re.compile(x) for x in noinline]
        for i, ln in enumerate(lines):
            if ln.startswith('define'):
                nm = re.search(r'@((?:[\w.$-]+)|"[^"]*")\(', ln).group(1).strip('"')
                keep = nm.startswith(('_ZNSt', '_ZNKSt', '_ZStls', '_ZN9__gnu', '_ZNK9__gnu')) or any(x.search(nm) for x in pats) or not inline
                if re.match(r'_ZSt(3maxI|3minI|4fabs|3abs|4log2|3pow|4sqrt|7forward|4move|4cbrt|4ceil|5floor)', nm): keep = False
                ln = re.sub(r'\bnoinline\b', '', ln)
                m = re.search(r' #\d+( comdat(\([^)]*\))?)?( align \d+)? \{$', ln)
                if m: lines[i] = ln[:m.start()] + (" noinline" if keep else " alwaysinline") + ln[m.start():]
        attrs = [re.sub(r'\b(noinline|optnone|alwaysinline)\b', '', l) if l.startswith('attributes') else l for l in lines]
        open(tmp, 'w').write("\n".join(attrs) + "\n")
        ps = (passes or PASSES) if inline else "function(sroa,early-cse,simplifycfg<no-keep-loops>,instsimplify,loop-simplify,lcssa)"
        if inline: ps = "always-inline," + ps
        p = subprocess.run(["opt-18", "-S", "-passes=" + ps, tmp, "-o", tmp + ".o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise ExtractError("opt: " + p.stdout[-1500:])
        os.unlink(tmp); os.replace(tmp + ".o", out)
    return Module(open(out).read())
_dem = {}
def demangle(names):
    need = [n for n in names if n not in _dem]
    if need:
        r = subprocess.run(["c++filt"], input="\n".join(need), stdout=subprocess.PIPE, text=True).stdout.split("\n")
        for a, b in zip(need, r): _dem[a] = b
    return [_dem[n] for n in names]
def find(mod, pat):
    ns = mod.names(); ds = demangle(ns); rx = re.compile(pat)
    r = [n for n, d in zip(ns, ds) if rx.search(d)]
    if len(r) != 1: raise ExtractError("%d functions match %s" % (len(r), pat))
    return r[0]
