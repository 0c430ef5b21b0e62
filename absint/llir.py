"""LLVM textual IR reader (clang 18, opaque pointers): types, globals, functions, debug locations.

Only what the analyser needs; an instruction it does not know becomes op 'unknown' and makes the
obligation that reaches it undecided (never proved, never refuted).
"""
import re, subprocess

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'e', 'f', 'packed', '_lay')
    def __init__(s, k, n=0, e=None, f=None, packed=False):
        s.k = k; s.n = n; s.e = e; s.f = f; s.packed = packed; s._lay = None
    def __repr__(s):
        if s.k == 'i': return 'i%d' % s.n
        if s.k == 'arr': return '[%d x %r]' % (s.n, s.e)
        if s.k == 'st': return '{%s}' % ', '.join(map(repr, s.f or []))
        return s.k

VOID = Ty('void'); PTR = Ty('ptr'); LABEL = Ty('label'); META = Ty('metadata')
_ints = {}
def I(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty('i', n)
    return t

def layout(t):
    """(size, align, offsets)"""
    if t._lay: return t._lay
    k = t.k
    if k == 'i':
        n = t.n
        s = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else ((n + 127) // 128) * 16
        r = (s, min(s, 16), None)
    elif k == 'ptr': r = (8, 8, None)
    elif k == 'float': r = (4, 4, None)
    elif k == 'double': r = (8, 8, None)
    elif k == 'x86_fp80': r = (16, 16, None)
    elif k in ('arr', 'vec'):
        s, a, _ = layout(t.e)
        r = (s * t.n, a, None)
    elif k == 'st':
        if t.f is None: r = (0, 1, [])
        else:
            off = 0; al = 1; offs = []
            for f in t.f:
                s, a, _ = layout(f)
                if t.packed: a = 1
                off = (off + a - 1) // a * a
                offs.append(off); off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al, offs)
    elif k in ('void', 'label', 'metadata', 'func'): r = (0, 1, None)
    else: raise IRError('layout ' + k)
    t._lay = r
    return r

def sizeof(t): return layout(t)[0]

# ---------------------------------------------------------------- lexer
TOK = re.compile(r'''
  c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"        # string constant
 |"(?:[^"\\]|\\.)*"                          # quoted
 |[%@$](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)
 |\![a-zA-Z_][-a-zA-Z$._0-9]*|\!\d+|\!
 |\#\d+
 |0x[KMLHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?
 |-?\d+
 |[a-zA-Z_][-a-zA-Z_0-9.]*:?
 |\.\.\.
 |[][(){}<>,=*:]
''', re.X)

def lex(s):
    return TOK.findall(s)

class Const:
    """operand kinds: ('int',v) ('loc',name) ('glob',name,off) ('undef',) ('zero',) ('agg',[..]) ('str',bytes) ('null',) ('ce', ...)"""

PARAM_ATTR_WORDS = {'noundef','nonnull','signext','zeroext','noalias','nocapture','readonly','writeonly','writable','returned',
    'immarg','inreg','nofree','readnone','swiftself','swifterror','nest','noreturn','nounwind','dead_on_unwind','allocptr','inalloca','noext','captures'}
PARAM_ATTR_PAREN = {'dereferenceable','dereferenceable_or_null','sret','byval','byref','elementtype','align','range','nofpclass','memory','initializes','preallocated'}

class Parser:
    def __init__(p, mod, toks, i=0):
        p.m = mod; p.t = toks; p.i = i
    def peek(p): return p.t[p.i] if p.i < len(p.t) else None
    def next(p):
        r = p.t[p.i]; p.i += 1; return r
    def accept(p, x):
        if p.i < len(p.t) and p.t[p.i] == x:
            p.i += 1; return True
        return False
    def expect(p, x):
        if not p.accept(x):
            raise IRError('expected %s got %s in %s' % (x, p.peek(), ' '.join(p.t[:60])))
    def type(p):
        t = p.next()
        if t[0] == 'i' and t[1:].isdigit(): r = I(int(t[1:]))
        elif t == 'ptr': 
            r = PTR
            if p.accept('addrspace'):
                p.expect('('); p.next(); p.expect(')')
        elif t == 'void': r = VOID
        elif t == 'label': r = LABEL
        elif t == 'metadata': r = META
        elif t in ('float', 'double', 'x86_fp80', 'half', 'fp128', 'token'): r = Ty(t)
        elif t == '[':
            n = int(p.next()); p.expect('x'); e = p.type(); p.expect(']'); r = Ty('arr', n, e)
        elif t == '{':
            f = []
            while not p.accept('}'):
                f.append(p.type()); p.accept(',')
            r = Ty('st', 0, None, f)
        elif t == '<':
            if p.accept('{'):
                f = []
                while not p.accept('}'):
                    f.append(p.type()); p.accept(',')
                p.expect('>'); r = Ty('st', 0, None, f, True)
            else:
                n = int(p.next()); p.expect('x'); e = p.type(); p.expect('>'); r = Ty('vec', n, e)
        elif t[0] == '%': r = p.m.named(t)
        elif t == '...': r = Ty('...')
        else: raise IRError('type? %s in %s' % (t, ' '.join(p.t[:40])))
        while p.peek() == '(':   # function type
            p.next(); d = 1
            while d:
                x = p.next()
                if x == '(': d += 1
                if x == ')': d -= 1
            r = Ty('func', 0, r)
        return r
    def attrs(p):
        got = {}
        while True:
            t = p.peek()
            if t in PARAM_ATTR_WORDS:
                p.next(); got[t] = True
                if t == 'captures' and p.peek() == '(':
                    p.skip_paren()
            elif t in PARAM_ATTR_PAREN:
                p.next()
                if p.peek() == '(':
                    if t in ('sret', 'byval', 'elementtype'):
                        p.next(); got[t] = p.type(); p.expect(')')
                    elif t.startswith('deref'):
                        p.next(); got[t] = int(p.next()); p.expect(')')
                    else:
                        p.skip_paren()
                elif t == 'align':
                    p.next()
            elif t and t[0] == '"':
                p.next()
                if p.accept('='): p.next()
            else: return got
    def skip_paren(p):
        p.expect('('); d = 1
        while d:
            x = p.next()
            if x == '(': d += 1
            elif x == ')': d -= 1
    def value(p, ty):
        t = p.next()
        c = t[0]
        if c == '%': return ('loc', t)
        if c == '@': return ('glob', t, 0)
        if c.isdigit() or (c == '-' and t[1:2].isdigit()):
            if ty.k == 'i': return ('int', int(t) & ((1 << ty.n) - 1))
            return ('fp', t)
        if t == 'true': return ('int', 1)
        if t == 'false': return ('int', 0)
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'zeroinitializer': return ('zero',)
        if t == 'none': return ('zero',)
        if c == 'c' and t[1] == '"':
            b = bytearray(); s = t[2:-1]; i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i+1] == '\\': b.append(92); i += 2
                    else: b.append(int(s[i+1:i+3], 16)); i += 3
                else: b.append(ord(s[i])); i += 1
            return ('str', bytes(b))
        if t == '[' or t == '{' or t == '<':
            close = {'[': ']', '{': '}', '<': '>'}[t]
            packed = False
            if t == '<' and p.accept('{'): close = '}'; packed = True
            out = []
            while not p.accept(close):
                ety = p.type(); out.append((ety, p.value(ety))); p.accept(',')
            if packed: p.expect('>')
            return ('agg', out)
        if t == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                p.next()
                if p.peek() == '(' and p.t[p.i+1].lstrip('-').isdigit(): p.skip_paren()
            p.expect('(')
            bt = p.type(); p.expect(',')
            pt = p.type(); base = p.value(pt); idx = []
            while p.accept(','):
                it = p.type(); idx.append(p.value(it))
            p.expect(')')
            off = 0; cur = bt
            ok = base[0] == 'glob'
            for n, ix in enumerate(idx):
                if ix[0] != 'int': ok = False; break
                v = ix[1]
                if v >= 1 << 63: v -= 1 << 64
                if n == 0: off += v * sizeof(cur)
                elif cur.k == 'st': off += layout(cur)[2][v]; cur = cur.f[v]
                else: cur = cur.e; off += v * sizeof(cur)
            if not ok: return ('undef',)
            return ('glob', base[1], base[2] + off)
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'sub', 'add', 'icmp', 'select', 'addrspacecast'):
            while p.peek() != '(': p.next()
            p.skip_paren(); return ('undef',)
        if t in ('asm', 'blockaddress', 'dso_local_equivalent', 'no_cfi'):
            raise IRError('operand ' + t)
        if t[0] == '!' or t == 'metadata': return ('undef',)
        if c == '-' or '.' in t: return ('fp', t)
        raise IRError('value? %s' % t)

class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'dbg', 'src')
    def __init__(s, op, dst, ty, a, x, dbg, src):
        s.op = op; s.dst = dst; s.ty = ty; s.a = a; s.x = x; s.dbg = dbg; s.src = src
    def __repr__(s): return s.src

class Block:
    __slots__ = ('name', 'insts', 'succ', 'phis', 'idx')
    def __init__(s, name): s.name = name; s.insts = []; s.succ = []; s.phis = []; s.idx = 0

class Func:
    def __init__(s, name): s.name = name; s.params = []; s.ret = None; s.blocks = {}; s.order = []; s.decl = True; s.attrs = set(); s.ipd = None; s.dbg = None; s.dem = name; s.lines = 0

    def ipdom(s):
        if s.ipd is not None: return s.ipd
        EXIT = None
        names = list(s.order); idx = {b: i for i, b in enumerate(names)}
        n = len(names)
        succ = [[idx[x] for x in s.blocks[b].succ] for b in names]
        # post-dominator sets by iterative dataflow on the reverse graph (bitsets)
        full = (1 << (n + 1)) - 1      # bit n == virtual exit
        pd = [full] * n
        noexit = set()
        order = list(range(n))[::-1]
        changed = True
        while changed:
            changed = False
            for i in order:
                if succ[i]:
                    v = full
                    for j in succ[i]:
                        if s.blocks[names[j]].insts and s.blocks[names[j]].insts[-1].op == 'unreachable': 
                            continue            # dead end: does not constrain post-dominance
                        v &= pd[j]
                else: v = 1 << n
                v |= 1 << i
                if v != pd[i]: pd[i] = v; changed = True
        ip = {}
        for i in range(n):
            cand = pd[i] & ~(1 << i)
            best = None; bc = -1
            j = 0; c = cand & ~(1 << n)
            while c:
                low = c & -c; j = low.bit_length() - 1; c ^= low
                cnt = bin(pd[j]).count('1')
                if cnt > bc: bc = cnt; best = j
            ip[names[i]] = names[best] if best is not None else None
        s.ipd = ip
        return ip

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'}
CAST = {'zext','sext','trunc','ptrtoint','inttoptr','bitcast','uitofp','sitofp','fptoui','fptosi','fpext','fptrunc','addrspacecast'}

class Module:
    def __init__(m):
        m.types = {}; m.globals = {}; m.funcs = {}; m.md = {}; m._raw_types = {}; m.source = ''
    def named(m, t):
        if t not in m.types:
            m.types[t] = Ty('st', 0, None, None)
        return m.types[t]

    def loc(m, ref):
        """DILocation id -> 'file:line' (innermost scope's file)"""
        s = m.md.get(ref)
        if not s: return '?'
        mm = re.search(r'line: (\d+)', s)
        line = mm.group(1) if mm else '?'
        sc = re.search(r'scope: (!\d+)', s)
        f = '?'
        seen = 0
        while sc and seen < 50:
            seen += 1
            d = m.md.get(sc.group(1), '')
            fm = re.search(r'file: (!\d+)', d)
            if fm:
                fd = m.md.get(fm.group(1), '')
                q = re.search(r'filename: "([^"]*)"', fd)
                if q: f = q.group(1); break
            sc = re.search(r'scope: (!\d+)', d)
        f = re.sub(r'^.*/include/AesiMultiprecision/', '', f)
        return '%s:%s' % (f, line)

    def fnloc(m, f):
        """function -> 'file:line' of its definition"""
        d = m.md.get(f.dbg or '', '')
        ln = re.search(r'line: (\d+)', d); fm = re.search(r'file: (!\d+)', d)
        q = re.search(r'filename: "([^"]*)"', m.md.get(fm.group(1), '')) if fm else None
        return '%s:%s' % (re.sub(r'^.*/include/AesiMultiprecision/', '', q.group(1)) if q else '?', ln.group(1) if ln else '?')

def parse_module(text):
    m = Module()
    lines = text.split('\n')
    n = len(lines)
    i = 0
    pend_funcs = []
    while i < n:
        ln = lines[i]
        if not ln: i += 1; continue
        c = ln[0]
        if c == '%' and ' = type ' in ln:
            nm, body = ln.split(' = type ', 1)
            t = m.named(nm)
            if body.strip() != 'opaque':
                x = Parser(m, lex(body)).type()
                t.k = x.k; t.n = x.n; t.e = x.e; t.f = x.f; t.packed = x.packed
        elif c == '@':
            m.globals[lex(ln)[0]] = ln
        elif c == '!':
            q = ln.find(' = ')
            m.md[ln[:q]] = ln[q+3:]
        elif ln.startswith('define '):
            j = i + 1
            while lines[j] != '}': j += 1
            pend_funcs.append((ln, lines[i+1:j]))
            i = j
        elif ln.startswith('declare '):
            pend_funcs.append((ln, None))
        i += 1
    for hd, body in pend_funcs:
        parse_func(m, hd, body)
    m.gcache = {}
    names = list(m.funcs)
    out = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(x[1:].strip('"') for x in names) + '\n', capture_output=True, text=True).stdout.split('\n')
    for nm, d in zip(names, out):
        m.funcs[nm].dem = d
    return m

LINKWORDS = re.compile(r'^(define|declare|private|internal|available_externally|linkonce_odr|linkonce|weak_odr|weak|external|dso_local|dso_preemptable|hidden|protected|default|fastcc|unnamed_addr|local_unnamed_addr|extern_weak|appending|common)$')

def parse_func(m, hd, body):
    toks = lex(hd)
    p = Parser(m, toks)
    while LINKWORDS.match(p.peek()): p.next()
    if p.accept('!dbg'): p.next()
    while LINKWORDS.match(p.peek()): p.next()
    ra = p.attrs()
    rt = p.type()
    nm = p.next()
    f = Func(nm); f.ret = rt; f.ret_attrs = ra
    p.expect('(')
    k = 0
    f.vararg = False
    while not p.accept(')'):
        if p.accept('...'): f.vararg = True; continue
        ty = p.type(); at = p.attrs()
        name = None
        if p.peek() and p.peek()[0] == '%': name = p.next()
        f.params.append((ty, name if name else '%' + str(k), at)); k += 1
        p.accept(',')
    rest = toks[p.i:]
    if '!dbg' in rest: f.dbg = rest[rest.index('!dbg') + 1]
    m.funcs[nm] = f
    if body is None: return
    f.decl = False
    cur = None
    # name of entry block
    j = 0
    logical = []
    nb = len(body)
    while j < nb:
        ln = body[j]
        if not ln or ln.lstrip().startswith(';'): j += 1; continue
        s = ln
        if 'switch ' in ln and ln.rstrip().endswith('['):
            while not body[j].strip().startswith(']'):
                j += 1; s += ' ' + body[j]
        elif re.search(r'\binvoke\b', ln) and ' unwind label ' not in ln:
            j += 1; s += ' ' + body[j]
        elif ' landingpad ' in ln:
            while j + 1 < nb and re.match(r'\s+(cleanup|catch|filter)', body[j+1]):
                j += 1; s += ' ' + body[j]
        logical.append(s); j += 1
    f.lines = len(logical)
    for s in logical:
        if s[0] != ' ':
            q = s.index(':')
            name = s[:q]
            cur = Block('%' + name); f.blocks[cur.name] = cur; f.order.append(cur.name)
            continue
        if cur is None:
            # implicit entry label = number of params (unnamed) ; choose unique name
            nums = sum(1 for (_, nme, _) in f.params if nme[1:].isdigit())
            cur = Block('%' + str(nums)); f.blocks[cur.name] = cur; f.order.append(cur.name)
        q = s.find(' ; ')
        if q > 0 and '"' not in s[q:]: s = s[:q]
        inst = parse_inst(m, s.strip())
        if inst.op == 'phi': cur.phis.append(inst)
        else: cur.insts.append(inst)
    for b in f.blocks.values():
        t = b.insts[-1]
        if t.op == 'br': b.succ = [t.x] if t.a is None else [t.x[0], t.x[1]]
        elif t.op == 'switch': b.succ = [t.x[0]] + [l for _, l in t.x[1]]
        elif t.op == 'invoke': b.succ = [t.x['normal']]
        else: b.succ = []
        seen = []
        for x in b.succ:
            if x not in seen: seen.append(x)
        b.succ = seen
    f.entry = f.order[0]

def parse_inst(m, s):
    toks = lex(s)
    dbg = None
    for k, t in enumerate(toks):
        if t == '!dbg':
            dbg = toks[k+1]
    # cut trailing metadata:  , !xxx !N
    for k, t in enumerate(toks):
        if t[0] == '!' and len(t) > 1 and t[1].isalpha() and k > 0 and toks[k-1] == ',':
            toks = toks[:k-1]; break
    p = Parser(m, toks)
    dst = None
    if len(toks) > 1 and toks[1] == '=' and toks[0][0] == '%':
        dst = toks[0]; p.i = 2
    op = p.next()
    try:
        return _inst(m, p, op, dst, dbg, s)
    except (IRError, IndexError, ValueError) as e:
        return Inst('unknown', dst, None, None, str(e), dbg, s)

def _inst(m, p, op, dst, dbg, s):
    if op in BIN:
        fl = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): fl.add(p.next())
        ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return Inst(op, dst, ty, (a, b), fl, dbg, s)
    if op in CAST:
        while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
        ty = p.type(); a = p.value(ty); p.expect('to'); t2 = p.type()
        return Inst(op, dst, t2, a, ty, dbg, s)
    if op == 'icmp':
        if p.peek() == 'samesign': p.next()
        pr = p.next(); ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return Inst('icmp', dst, ty, (a, b), pr, dbg, s)
    if op == 'select':
        ct = p.type(); c = p.value(ct); p.expect(','); ty = p.type(); a = p.value(ty); p.expect(','); ty2 = p.type(); b = p.value(ty2)
        return Inst('select', dst, ty, (c, a, b), None, dbg, s)
    if op == 'load':
        p.accept('volatile'); at = p.accept('atomic')
        ty = p.type(); p.expect(','); p.type(); a = p.value(PTR)
        return Inst('load', dst, ty, a, None, dbg, s)
    if op == 'store':
        p.accept('volatile'); p.accept('atomic')
        ty = p.type(); v = p.value(ty); p.expect(','); p.type(); a = p.value(PTR)
        return Inst('store', None, ty, (v, a), None, dbg, s)
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type(); n = ('int', 1)
        if p.accept(','):
            if p.peek() != 'align':
                t2 = p.type(); n = p.value(t2)
        return Inst('alloca', dst, ty, n, None, dbg, s)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.type(); p.expect(','); p.type(); base = p.value(PTR); idx = []
        while p.accept(','):
            it = p.type(); idx.append((it, p.value(it)))
        return Inst('gep', dst, bt, (base, idx), None, dbg, s)
    if op == 'br':
        if p.accept('label'):
            return Inst('br', None, None, None, p.next(), dbg, s)
        ty = p.type(); c = p.value(ty); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        return Inst('br', None, None, c, (a, b), dbg, s)
    if op == 'switch':
        ty = p.type(); c = p.value(ty); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
        cs = []
        while not p.accept(']'):
            t2 = p.type(); v = p.value(t2); p.expect(','); p.expect('label'); cs.append((v[1], p.next()))
        return Inst('switch', None, ty, c, (d, cs), dbg, s)
    if op == 'ret':
        ty = p.type()
        return Inst('ret', None, ty, None if ty.k == 'void' else p.value(ty), None, dbg, s)
    if op == 'unreachable':
        return Inst('unreachable', None, None, None, None, dbg, s)
    if op == 'phi':
        ty = p.type(); inc = {}
        while True:
            p.expect('['); v = p.value(ty); p.expect(','); b = p.next(); p.expect(']')
            inc[b] = v
            if not p.accept(','): break
        return Inst('phi', dst, ty, inc, None, dbg, s)
    if op in ('call', 'invoke', 'tail', 'musttail', 'notail'):
        if op in ('tail', 'musttail', 'notail'): p.next(); op = 'call'
        while p.peek() in ('fastcc', 'ccc', 'nnan', 'ninf', 'nsz', 'fast', 'noundef'):
            if p.peek() == 'noundef': break
            p.next()
        p.attrs()
        rt = p.type()
        if rt.k == 'func': rt = rt.e
        callee = p.next()
        if callee == 'asm': raise IRError('asm')
        p.expect('('); args = []
        while not p.accept(')'):
            ty = p.type(); at = p.attrs()
            if ty.k == 'metadata':
                d = 0
                while True:
                    t = p.peek()
                    if d == 0 and t in (',', ')'): break
                    if t in '({': d += 1
                    if t in ')}': d -= 1
                    p.next()
                args.append((ty, ('undef',)))
            else: args.append((ty, p.value(ty)))
            p.accept(',')
        x = {'callee': callee}
        if op == 'invoke':
            r = p.t[p.i:]
            x['normal'] = r[r.index('to') + 2]; x['unwind'] = r[r.index('unwind') + 2]
        return Inst(op, dst, rt, args, x, dbg, s)
    if op == 'extractvalue':
        ty = p.type(); a = p.value(ty); ix = []
        while p.accept(','): ix.append(int(p.next()))
        return Inst('extractvalue', dst, ty, a, ix, dbg, s)
    if op == 'insertvalue':
        ty = p.type(); a = p.value(ty); p.expect(','); t2 = p.type(); b = p.value(t2); ix = []
        while p.accept(','): ix.append(int(p.next()))
        return Inst('insertvalue', dst, ty, (a, b), (t2, ix), dbg, s)
    if op in ('freeze',):
        ty = p.type(); return Inst('freeze', dst, ty, p.value(ty), None, dbg, s)
    if op in ('landingpad', 'resume', 'fence'):
        return Inst(op, dst, None, None, None, dbg, s)
    if op in ('fadd','fsub','fmul','fdiv','frem','fcmp','fneg','cmpxchg','atomicrmw','extractelement','insertelement','shufflevector'):
        return Inst(op, dst, None, None, s, dbg, s)
    raise IRError('op ' + op)

def global_init(m, name):
    """-> (type, value, constant?) or None"""
    if name in m.gcache: return m.gcache[name]
    ln = m.globals.get(name)
    r = None
    if ln:
        toks = lex(ln); p = Parser(m, toks, 2)
        const = False; ext = False
        while p.peek() is not None:
            t = p.peek()
            if t in ('global', 'constant'):
                const = t == 'constant'; p.next(); break
            if t == 'external': ext = True
            if t == 'thread_local' or t == 'addrspace':
                p.next()
                if p.peek() == '(': p.skip_paren()
                continue
            p.next()
        try:
            ty = p.type()
            v = None if ext else p.value(ty)
            r = (ty, v, const)
        except (IRError, IndexError): r = None
    m.gcache[name] = r
    return r
