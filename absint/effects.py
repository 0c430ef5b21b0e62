"""Interprocedural effect analysis (mod/ref + points-to) over the IR of the current headers.

Flow-insensitive within a function, field-sensitive by byte offset, context-sensitive by summary
substitution.  A location is
  ('p',i)      what pointer parameter i of the function points to
  ('a',n)      a local object
  ('g',name)   a global
  ('*',l,off)  what the pointer stored at offset off of l points to
  ('unk',)     not known
A pointer value is a set of (location, offset or None).  The summary of a function lists the caller
visible locations it may write and read, with the source position and call chain of one such access,
the external functions it reaches, and the pointers it returns or stores.
"""
import re
import llir

PURE = re.compile(r'^llvm\.(memcpy|memmove|memset|lifetime|dbg|assume|expect|objectsize|is\.constant|umax|umin|smax|smin|abs|ctlz|cttz|ctpop|bswap|bitreverse|fsh[lr]|'
                  r'[us](add|sub|mul)\.with|[us](add|sub)\.sat|experimental|donothing|trap|ubsantrap|stacksave|stackrestore|launder|strip|invariant|var\.annotation|fabs|floor|ceil|trunc|sideeffect)')
BENIGN = {'memcpy', 'memmove', 'memset', 'memcmp', 'bcmp', 'strlen', 'wcslen', 'memchr', 'wmemchr', 'wmemcpy', 'wmemset', 'wmemcmp', 'abort', '__assert_fail',
          '__clang_call_terminate', '_ZSt9terminatev', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__cxa_begin_catch', '__stack_chk_fail', 'strcmp', 'strncmp',
          'div', 'ldiv', 'lldiv', 'abs', 'labs', 'llabs', 'log2', 'floor', 'ceil', '__gxx_personality_v0'}
FORBID = [(re.compile(p), w) for p, w in [
    (r'^(malloc|calloc|realloc|free|aligned_alloc|posix_memalign)$|^_Zn[wa]|^_Zd[la]', 'allocates or frees memory'),
    (r'^__cxa_(throw|allocate_exception|rethrow|bad)|^_ZSt\d+__throw|^_ZSt17rethrow', 'may throw'),
    (r'^__cxa_guard|^__cxa_thread|^__cxa_atexit|^__tls', 'uses static or thread-local initialisation'),
    (r'^(rand|srand|random|time|clock|clock_gettime|gettimeofday|getenv|setlocale|localeconv|errno|__errno_location|strtok|printf|fprintf|vprintf|puts|putchar|fputs|fwrite|fopen|write|read|signal|setjmp|longjmp|__ctype_b_loc|fesetround|srandom|drand48|lrand48|getpid|pthread_\w+)$', 'uses process-wide state'),
    (r'^_ZNSt6chrono|^_ZNSo|^_ZNSi|^_ZSt4c(out|err|in)|^_ZNSt6locale|^_ZNSt8ios_base|^_ZNSt3mt|random_device', 'uses process-wide state'),
]]
# text formatting and character classification of the C library: argument positions written
TEXT = {'snprintf': (0,), 'swprintf': (0,), 'sprintf': (0,), 'isalnum': (), 'iswalnum': (), 'isdigit': (), 'iswdigit': (), 'isxdigit': (), 'iswxdigit': (), 'isalpha': (), 'iswalpha': (),
        'tolower': (), 'toupper': (), 'towlower': (), 'towupper': (), 'isspace': (), 'iswspace': (), 'isupper': (), 'islower': (), 'iswupper': (), 'iswlower': ()}
MAXDEPTH = 4

def sig_params(dem):
    """parameter type texts of a demangled signature"""
    e = dem.rfind(')')
    if e < 0: return []
    d = 0
    for j in range(e, -1, -1):
        if dem[j] in ')>': d += 1
        elif dem[j] in '(<':
            d -= 1
            if d == 0: break
    out = []; d = 0; cur = ''
    for c in dem[j + 1:e]:
        if c in '(<[': d += 1
        if c in ')>]': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

UNK = (('unk',), None)

class Summary:
    __slots__ = ('mods', 'refs', 'exts', 'text', 'ret', 'stores', 'funcs', 'undec')
    def __init__(s):
        s.mods = {}; s.refs = {}; s.exts = {}; s.text = {}; s.ret = set(); s.stores = set(); s.funcs = set(); s.undec = set()
    def key(s):
        return (frozenset(s.mods), frozenset(s.refs), frozenset(s.exts), frozenset(s.ret), frozenset(s.stores), frozenset(s.undec))

def depth(l):
    d = 0
    while l[0] == '*': l = l[1]; d += 1
    return d

def root(l):
    while l[0] == '*': l = l[1]
    return l

class Effects:
    def __init__(s, m):
        s.m = m; s.sum = {}; s.inprog = {}; s.changed = False

    def of(s, name):
        """summary of a function; recursion by iteration"""
        if name in s.sum: return s.sum[name]
        if name in s.inprog:
            s.recursive = True
            return s.inprog[name]
        s.inprog[name] = Summary()
        while True:
            s.recursive = False
            r = s.analyse(name)
            same = r.key() == s.inprog[name].key()
            s.inprog[name] = r
            if same or not s.recursive: break
        del s.inprog[name]
        if not s.inprog: s.sum[name] = r          # summaries inside an open cycle may be incomplete: not cached
        elif not s.recursive: s.sum[name] = r
        return r

    def where(s, i, f):
        l = s.m.loc(i.dbg) if i.dbg else '?'
        return l if l != '?' else f.dem

    def const_global(s, name):
        ln = s.m.globals.get(name, '')
        if 'thread_local' in ln: return False
        gi = llir.global_init(s.m, name)
        if gi is None: return ' constant ' in ln
        return gi[2]

    def analyse(s, name):
        f = s.m.funcs[name]
        S = Summary(); S.funcs.add(f.dem)
        regs = {}; cont = {}      # cont: loc -> {off: set(ptr)}
        for k, p in enumerate(f.params):
            pn, ty = (p[1], p[0]) if not isinstance(p, dict) else (p['name'], p['ty'])
            if ty.k == 'ptr': regs[pn] = {(('p', k), 0)}
        def val(v):
            k = v[0]
            if k == 'loc': return regs.get(v[1], set())
            if k == 'glob':
                if v[1] in s.m.funcs: return set()
                return {(('g', v[1]), v[2])}
            if k == 'agg':
                r = set()
                for t, x in v[1]: r |= val(x)
                return r
            return set()
        ch = [True]
        def put(d, st):
            if d is None or not st: return
            if len(st) > 60: st = {UNK}
            o = regs.get(d)
            if o is None: regs[d] = set(st); ch[0] = True
            elif not st <= o: o |= st; ch[0] = True
        def mput(l, off, st):
            if not st: return
            c = cont.setdefault(l, {}); o = c.setdefault(off, set())
            if not st <= o: o |= st; ch[0] = True
        def loadp(ptrs):
            r = set()
            for l, off in ptrs:
                if l[0] == 'unk': r.add(UNK); continue
                c = cont.get(l, {})
                for o, st in c.items():
                    if off is None or o is None or o == off: r |= st
                if l[0] != 'a':
                    if l[0] == 'g':
                        gi = llir.global_init(s.m, l[1])
                        continue
                    if depth(l) >= MAXDEPTH: r.add(UNK)
                    else: r.add((('*', l, off), 0))
            return r
        def mod(ptrs, i, chain=()):
            for l, off in ptrs:
                if l[0] == 'a': continue
                kk = l
                if kk not in S.mods: S.mods[kk] = (s.where(i, f), (f.dem,) + chain)
            if not ptrs: S.undec.add(('%s: write through a pointer of unknown origin' % s.where(i, f), None))
        def ref(ptrs, i, chain=()):
            for l, off in ptrs:
                if l[0] == 'a': continue
                if l not in S.refs: S.refs[l] = (s.where(i, f), (f.dem,) + chain)
        def copy(dst, src, n):
            for dl, do in dst:
                for sl, so in src:
                    if sl[0] in ('unk',): continue
                    for o, st in list(cont.get(sl, {}).items()):
                        if o is None or so is None or do is None: mput(dl, None, st)
                        elif o >= so and (n is None or o < so + n): mput(dl, do + o - so, st)
                    if sl[0] in ('p', '*') and n is not None and n % 8 == 0 and n <= 64 and depth(sl) < MAXDEPTH:
                        for k in range(0, n, 8):
                            if so is not None and do is not None: mput(dl, do + k, {(('*', sl, so + k), 0)})
        rounds = 0
        while ch[0] and rounds < 40:
            ch[0] = False; rounds += 1
            for b in f.order:
                B = f.blocks[b]
                for i in list(B.phis) + list(B.insts):
                    op = i.op
                    if op == 'alloca': put(i.dst, {(('a', i.dst), 0)})
                    elif op == 'phi':
                        r = set()
                        for v in i.a.values(): r |= val(v)
                        put(i.dst, r)
                    elif op == 'select': put(i.dst, val(i.a[1]) | val(i.a[2]))
                    elif op in ('freeze', 'bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr', 'zext', 'sext', 'trunc'):
                        put(i.dst, val(i.a))
                    elif op == 'gep':
                        base, idx = i.a
                        ps = val(base)
                        off = 0; cur = i.ty
                        for n, (it, ix) in enumerate(idx):
                            if ix[0] == 'zero': ix = ('int', 0)
                            c = ix[1] if ix[0] == 'int' else None
                            if c is not None and c >= 1 << (it.n - 1): c -= 1 << it.n
                            if n == 0:
                                off = None if c is None or off is None else off + c * llir.sizeof(cur)
                            elif cur.k == 'st':
                                o = llir.layout(cur)[2][c]; off = None if off is None else off + o; cur = cur.f[c]
                            else:
                                cur = cur.e
                                off = None if c is None or off is None else off + c * llir.sizeof(cur)
                        put(i.dst, {(l, None if o is None or off is None else o + off) for l, o in ps})
                    elif op in llir.BIN:
                        r = {(l, None) for v in i.a for l, o in val(v)}
                        if op in ('add', 'sub', 'or', 'and', 'xor'): put(i.dst, r)
                    elif op == 'load':
                        ps = val(i.a); ref(ps, i)
                        if i.ty.k in ('ptr', 'st', 'arr') or i.ty.k == 'i' and i.ty.n >= 64 and any(cont.get(l) for l, o in ps): put(i.dst, loadp(ps))
                    elif op == 'store':
                        v, a = i.a; ps = val(a); mod(ps, i)
                        vs = val(v)
                        if vs:
                            for l, o in ps: mput(l, o, vs)
                    elif op in ('insertvalue',): put(i.dst, val(i.a[0]) | val(i.a[1]))
                    elif op == 'extractvalue': put(i.dst, val(i.a))
                    elif op == 'ret':
                        if i.a is not None:
                            for x in val(i.a):
                                if x not in S.ret: S.ret.add(x); ch[0] = True
                    elif op in ('call', 'invoke'): s.call(f, i, S, regs, cont, val, put, mput, loadp, mod, ref, copy)
                    elif op in ('cmpxchg', 'atomicrmw', 'unknown'):
                        S.undec.add(('%s: instruction not modelled: %s' % (s.where(i, f), i.src[:60]), None))
        # caller-visible pointer stores
        for l, c in cont.items():
            if root(l)[0] == 'a': continue
            for o, st in c.items():
                for x in st:
                    if root(x[0])[0] != 'a': S.stores.add((l, o, x))
        S.ret = {x for x in S.ret if root(x[0])[0] != 'a'}
        return S

    def call(s, f, i, S, regs, cont, val, put, mput, loadp, mod, ref, copy):
        cal = i.x['callee']
        if cal[0] == '%':
            S.undec.add(('%s: indirect call' % s.where(i, f), None)); return
        nm = cal
        args = [val(v) for t, v in i.a]
        g = s.m.funcs.get(nm)
        bare = nm.lstrip('@').strip('"')
        if g is None or g.decl:
            if bare.startswith('llvm.memcpy') or bare.startswith('llvm.memmove') or bare in ('memcpy', 'memmove', 'wmemcpy'):
                n = i.a[2][1][1] if i.a[2][1][0] == 'int' else None
                mod(args[0], i); ref(args[1], i); copy(args[0], args[1], n)
                if i.dst: put(i.dst, args[0])
                return
            if bare.startswith('llvm.memset') or bare in ('memset', 'wmemset'):
                mod(args[0], i)
                if i.dst: put(i.dst, args[0])
                return
            if PURE.match(bare): return
            if bare.startswith('llvm.threadlocal'):
                if i.dst: put(i.dst, args[0])
                return
            if bare in BENIGN: return
            if bare in TEXT:
                w = TEXT[bare]
                S.text.setdefault(bare, (s.where(i, f), (f.dem,)))
                for k, a in enumerate(args):
                    if k in w: mod(a, i)
                    else: ref(a, i)
                return
            S.exts.setdefault(bare, (s.where(i, f), (f.dem,)))
            pt = sig_params(g.dem if g is not None else bare)
            for k, a in enumerate(args):
                q = pt[k - (len(args) - len(pt))] if pt and 0 <= k - (len(args) - len(pt)) < len(pt) else ''
                if re.search(r'const\s*[*&]\s*$', q): ref(a, i); continue
                for l, o in a:
                    if l[0] != 'a': S.undec.add(('%s: pointer passed to external %s' % (s.where(i, f), g.dem if g is not None else bare), l))
            if i.dst and i.ty.k == 'ptr': put(i.dst, {UNK} if not any(args) else set().union(*args))
            return
        T = s.of(nm)
        S.funcs |= T.funcs
        memo = {}
        byval = {k for k, p in enumerate(g.params) if 'byval' in repr(p[2])}
        def subl(l):
            """location in callee -> set of pointers in caller"""
            if l in memo: return memo[l]
            if l[0] == 'p': r = args[l[1]] if l[1] < len(args) else set()
            elif l[0] == '*': 
                b = subl(l[1])
                r = loadp({(x, None if (xo is None or l[2] is None) else xo + l[2]) for x, xo in b})
            elif l[0] == 'a': r = set()
            else: r = {(l, 0)}
            memo[l] = r
            return r
        for l, (w, ch) in T.mods.items():
            if l[0] == 'p' and l[1] in byval: continue        # writes to the callee's own copy
            for x, o in subl(l):
                if x[0] == 'a': continue
                if x not in S.mods: S.mods[x] = (w, (f.dem,) + ch)
        for l, (w, ch) in T.refs.items():
            for x, o in subl(l):
                if x[0] == 'a': continue
                if x not in S.refs: S.refs[x] = (w, (f.dem,) + ch)
        for t, l in T.undec:
            if l is None: S.undec.add((t, None))
            else:
                for x, o in subl(l):
                    if x[0] != 'a': S.undec.add((t, x))
        for e, (w, ch) in T.text.items(): S.text.setdefault(e, (w, (f.dem,) + ch))
        for e, (w, ch) in T.exts.items(): S.exts.setdefault(e, (w, (f.dem,) + ch))
        for l, o, (v, vo) in T.stores:
            vs = {(x, None if xo is None or vo is None else xo + vo) for x, xo in subl(v)}
            for x, xo in subl(l): mput(x, None if xo is None or o is None else xo + o, vs)
        if i.dst:
            put(i.dst, {(x, None if xo is None or vo is None else xo + vo) for v, vo in T.ret for x, xo in subl(v)})

def chain(ch):
    return ' -> '.join(re.sub(r'\(.*', '', c)[-60:] for c in ch[:8])
