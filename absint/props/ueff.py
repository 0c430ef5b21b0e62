"""C27/C28: interprocedural effect analysis of every public operation; aliasing by abstract interpretation."""
import re
from props.sutil import *
from props import effops
import effects
RULE = ('for every public operation (thin wrapper per overload and built-in type) the transitive set of written locations contains only the result, the left operand of an assignment form or a documented output; '
        'operations whose operands are the same object give the value of the same operation on equal separate objects')
RULE28 = ('the transitive effects of every public numeric operation contain no read or write of a mutable global, static or thread-local object, no allocation, no throw and no call into process-wide state')

AL_U = ['+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '=']
AL_S = ['+=', '-=', '*=', '/=', '%=', '=']

def alias_source(N):
    s = HDR + '\nstatic constexpr std::size_t N = %d;\n' % N
    for k, o in enumerate(AL_U):
        s += 'extern "C" void al_%d(u32* po, u32* pq, const u32* pa) { Aeu<N> a, b, d; ld(a, pa); ld(b, pa); ld(d, pa); a %s a; b %s d; st(po, a); st(pq, b); }\n' % (k, o, o)
    s += 'extern "C" void al_sw(u32* po, const u32* pa) { Aeu<N> a; ld(a, pa); a.swap(a); st(po, a); }\n'
    s += 'extern "C" void al_dv(u32* pq, u32* pr, u32* pa2, const u32* pa) { Aeu<N> a, q, r; ld(a, pa); Aeu<N>::divide(a, a, q, r); st(pq, q); st(pr, r); st(pa2, a); }\n'
    s += 'extern "C" void al_gc(u32* po, const u32* pa) { Aeu<N> a, g; ld(a, pa); g = Aeu<N>::gcd(a, a); st(po, g); }\n'
    for sg in (1, -1, 0):
        for k, o in enumerate(AL_S):
            s += 'extern "C" void as_%d_%s(u32* po, int* so, u32* pq, int* sq, const u32* pa) { Aesi<N> a = mks<N>(pa, %d), b = mks<N>(pa, %d), d = mks<N>(pa, %d); a %s a; b %s d; sts(po, so, a); sts(pq, sq, b); }\n' % (k, SG[sg], sg, sg, sg, o, o)
        s += 'extern "C" void as_sw_%s(u32* po, int* so, const u32* pa) { Aesi<N> a = mks<N>(pa, %d); a.swap(a); sts(po, so, a); }\n' % (SG[sg], sg)
    return s

def alias_unit(N, fn, k, signed, sg, two):
    n = N // 32
    def run(c):
        e = c.engine('al%d' % N)
        a = c.blocks('a', n, k)
        args = [c.out(e, 'o', 4 * n)]
        if signed: args.append(c.out(e, 'so', 4))
        if two:
            args.append(c.out(e, 'q', 4 * n))
            if signed: args.append(c.out(e, 'sq', 4))
        args.append(c.arr(e, 'a', a, const=True))
        st, r = c.call(e, fn, args)
        c.ub(e)
        if st != 'ok': return
        g = c.read(e, args[0], n)
        if two:
            c.eq_mod('aliased value equals separate value', number(g), pof(number(c.read(e, args[2 if signed else 1], n))))
            if signed: c.eq_mod('aliased sign equals separate sign', c.read(e, args[1], 1)[0], pof(c.read(e, args[3], 1)[0]))
        else:
            c.eq_mod('value unchanged', number(g), compose(a))
            if signed: c.eq_mod('sign unchanged', c.read(e, args[1], 1)[0], sg & 0xffffffff)
    return run

def dv_unit(N, k):
    n = N // 32
    def run(c):
        e = c.engine('al%d' % N)
        a = c.blocks('a', n, k)
        q = c.out(e, 'q', 4 * n); r_ = c.out(e, 'r', 4 * n); a2 = c.out(e, 'a2', 4 * n)
        st, r = c.call(e, 'al_dv', [q, r_, a2, c.arr(e, 'a', a, const=True)])
        c.ub(e)
        if st != 'ok': return
        if k: c.eq_mod('quotient', number(c.read(e, q, n)), 1); c.eq_mod('remainder', number(c.read(e, r_, n)), 0)
        c.eq_mod('operand', number(c.read(e, a2, n)), compose(a))
    return run

def gc_unit(N, k):
    n = N // 32
    def run(c):
        e = c.engine('al%d' % N)
        a = c.blocks('a', n, k)
        o = c.out(e, 'o', 4 * n)
        st, r = c.call(e, 'al_gc', [o, c.arr(e, 'a', a, const=True)])
        c.ub(e)
        if st == 'ok': c.eq_mod('gcd', number(c.read(e, o, n)), compose(a))
    return run

CFG = {'quick': [(96, 160), (64, 32), (512, 256)], 'thorough': [(32, 96), (64, 32), (96, 160), (128, 512), (256, 224), (512, 256), (1024, 2048)]}
_names = {}

def build(tier, which='C27'):
    mods = {}; units = []
    for N, M in CFG[tier]:
        src, names = effops.source(N, M, tier)
        mods['e%d' % N] = (src, []); _names[N] = names
    if which == 'C27':
        for N in ([96] if tier == 'quick' else [64, 96, 128, 192]):
            n = N // 32
            mods['al%d' % N] = (alias_source(N), [])
            for k in range(n + 1):
                for j, o in enumerate(AL_U):
                    if k == 0 and o in ('/=', '%='): continue
                    units.append(Unit('Aeu<%d> a %s a, same object, blocks(%d)' % (N, o, k), alias_unit(N, 'al_%d' % j, k, False, 0, True), 120))
                units.append(Unit('Aeu<%d> a.swap(a) blocks(%d)' % (N, k), alias_unit(N, 'al_sw', k, False, 0, False), 60))
                if k: units.append(Unit('Aeu<%d> divide(a, a, q, r) blocks(%d)' % (N, k), dv_unit(N, k), 60))
                if k: units.append(Unit('Aeu<%d> gcd(a, a) blocks(%d)' % (N, k), gc_unit(N, k), 60))
                for sg in ((1, -1) if k else (0,)):
                    for j, o in enumerate(AL_S):
                        if k == 0 and o in ('/=', '%='): continue
                        units.append(Unit('Aesi<%d> a %s a, same object, sign %d blocks(%d)' % (N, o, sg, k), alias_unit(N, 'as_%d_%s' % (j, SG[sg]), k, True, sg, True), 120))
                    units.append(Unit('Aesi<%d> a.swap(a) sign %d blocks(%d)' % (N, sg, k), alias_unit(N, 'as_sw_%s' % SG[sg], k, True, sg, False), 60))
    return mods, units

def locname(l, ps):
    d = 0
    while l[0] == '*': l = l[1]; d += 1
    s = 'parameter ' + ps[l[1]][2] if l[0] == 'p' and l[1] < len(ps) else 'global ' + l[1] if l[0] == 'g' else 'unknown object'
    return ('memory reached through ' if d else '') + s

def finish(tier, mods, which='C27'):
    obls = []; funcs = set(); nops = 0; sites = 0
    for key, m in mods.items():
        if key[0] != 'e': continue
        N = int(key[1:])
        E = effects.Effects(m)
        for fn, n, ps, body in _names[N]:
            S = E.of('@' + fn); nops += 1; funcs |= S.funcs; sites += len(S.mods) + len(S.refs)
            io = any(kd == 'io' for kd, t, p in ps)
            if which == 'C27':
                for k, (kd, t, p) in enumerate(ps):
                    if kd not in ('in', 'in*'): continue
                    w = [(l, x) for l, x in S.mods.items() if effects.root(l) == ('p', k)]
                    u = [x for x, l in S.undec if l is not None and effects.root(l) == ('p', k)] + [x for x, l in S.undec if l is None and not io]
                    nm = 'Aeu/Aesi %s {%s}: operand %s is not written' % (n, body, p)
                    if w:
                        l, (wh, ch) = w[0]
                        obls.append((nm, 'refuted', 'writes %s, call path %s' % (locname(l, ps), effects.chain(ch)), wh, 'any call of %s' % n, 'value'))
                    elif u: obls.append((nm, 'undecided', u[0], '', '', 'value'))
                    else: obls.append((nm, 'proved', '', '', '', 'value'))
                w = [(l, x) for l, x in S.mods.items() if effects.root(l)[0] == 'g']
                nm = '%s {%s}: writes only its results' % (n, body)
                if io: continue
                if w:
                    l, (wh, ch) = w[0]
                    obls.append((nm, 'refuted', 'writes %s, call path %s' % (locname(l, ps), effects.chain(ch)), wh, 'any call of %s' % n, 'value'))
                else: obls.append((nm, 'proved', '', '', '', 'value'))
                continue
            if io: continue
            if any(kd == 'in' and 'basic_string' in t for kd, t, p in ps): pass
            res = []
            for l, (wh, ch) in S.mods.items():
                if effects.root(l)[0] == 'g': res.append(('writes %s' % locname(l, ps), wh, ch))
            for l, (wh, ch) in S.refs.items():
                r = effects.root(l)
                if r[0] == 'g' and not E.const_global(r[1]): res.append(('reads mutable %s' % locname(l, ps), wh, ch))
            und = []
            for x, (wh, ch) in S.exts.items():
                for pt, why in effects.FORBID:
                    if pt.search(x): res.append(('%s: calls %s' % (why, x), wh, ch)); break
                else: und.append('calls %s, whose effects are not known, at %s' % (x, wh))
            nm = '%s {%s}: no hidden state, allocation or exception' % (n, body)
            if res:
                t, wh, ch = res[0]
                obls.append((nm, 'refuted', '%s, call path %s' % (t, effects.chain(ch)), wh, 'any call of %s' % n, 'value'))
            elif und: obls.append((nm, 'undecided', und[0], '', '', 'value'))
            else: obls.append((nm, 'proved', '', '', '', 'value'))
    fl = sorted(re.sub(r'\(.*', '', f) for f in funcs if 'Ae' in f)
    return obls, dict(operations_analysed=nops, functions_analysed=len(funcs), function_list=fl[:60], effect_records=sites, rule=RULE if which == 'C27' else RULE28,
                      explanation='bottom-up mod/ref and points-to summaries over the IR of every public operation, composed at each call site')
