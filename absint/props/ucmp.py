"""Unsigned comparison is the numeric order (same precision, mixed precision, built-in operands)."""
from props.util import *
RULE = 'operand pairs partitioned by the first differing 32-bit block (or highest extra block) and its relation - exhaustive; every operator result is then a constant of the class and must be the numeric relation'
EXTRA = ' { auto c = x.compareTo(y); o[12] = c == Comparison::less ? 1 : c == Comparison::greater ? 2 : c == Comparison::equal ? 0 : 3; auto d = (x <=> y); o[13] = d < 0 ? 1 : d > 0 ? 2 : d == 0 ? 0 : 3; }'

def source(N, M, builtins):
    s = HDR + '\nstatic constexpr std::size_t N = %d, M = %d;\n' % (N, M)
    s += 'extern "C" void f_obj(u32* o, const u32* pa, const u32* pb) { Aeu<N> x; Aeu<M> y; ld(x, pa); ld(y, pb); %s %s %s }\n' % (CMPQ, RCMPQ, EXTRA)
    if N == M: s += 'extern "C" void f_self(u32* o, const u32* pa) { Aeu<N> x; ld(x, pa); Aeu<N>& y = x; %s %s %s }\n' % (CMPQ, RCMPQ, EXTRA)
    if builtins:
        for tn, tt, w in UNS: s += 'extern "C" void f_%s(u32* o, const u32* pa, %s y) { Aeu<N> x; ld(x, pa); %s %s %s }\n' % (tn, tt, CMPQ, RCMPQ, EXTRA)
    return s

def verdicts(c, e, po, s):
    got = c.read(e, po, 14)
    o = 0 if s == 0 else 1 if s < 0 else 2
    for i, (nm, w) in enumerate(cmp_expected(s, True) + [('compareTo', o), ('<=>', o)]): c.eq_mod(nm, got[i], w)

def objcase(mod, n, m, kind, d):
    def run(c):
        e = c.engine(mod); a, b, s = pair_of(c, n, m, kind, d)
        po = c.out(e, 'o', 56)
        st, r = c.call(e, 'f_obj', [po, c.arr(e, 'a', a, const=True), c.arr(e, 'b', b, const=True)])
        c.ub(e)
        if st == 'ok': verdicts(c, e, po, s)
    return run

def selfcase(mod, n):
    def run(c):
        e = c.engine(mod); po = c.out(e, 'o', 56)
        st, r = c.call(e, 'f_self', [po, c.arr(e, 'a', c.blocks('a', n), const=True)])
        c.ub(e)
        if st == 'ok': verdicts(c, e, po, 0)
    return run

def builtin_classes(w, n):
    """classes of (n-block a, w-bit t): label, maker -> (blocks, t, sign(a-t))"""
    k = 1 if w <= 32 else 2
    top = (1 << min(w, 32)) - 1
    out = []
    for d in range(k, n):
        def mk_(c, d=d):
            a = [c.sym('a%d' % i) for i in range(d)] + [c.sym('a%d' % d, 1)] + [0] * (n - d - 1)
            return a, c.sym('t', 0, (1 << w) - 1), 1
        out.append(('a has top block %d' % d, mk_))
    if k == 1:
        def eq(c):
            x = c.sym('x', 0, top); return [x] + [0] * (n - 1), x, 0
        def gt(c):
            a = c.sym('a0', 1); t = c.sym('t', 0, min(top, 0xfffffffe))
            poly.CLASS_FACTS.append(a.p - pof(t) - 1); return [a] + [0] * (n - 1), t, 1
        def lt(c):
            a = c.sym('a0', 0, max(top - 1, 0)); t = c.sym('t', 1, top)
            if isinstance(a, V) or isinstance(t, V): poly.CLASS_FACTS.append(pof(t) - pof(a) - 1)
            return [a] + [0] * (n - 1), t, -1
        out += [('a==t', eq), ('a>t', gt), ('a<t', lt)]
    else:
        def z(c, kind, d):
            a, b, s = pair_of(c, 2, 2, kind, d)
            t = mk(compose(b))
            return a + [0] * (n - 2), t, s
        for lab, kind, d in pair_classes(2, 2): out.append((lab, lambda c, kind=kind, d=d: z(c, kind, d)))
    return out

def bcase(mod, n, tn, mkr):
    def run(c):
        e = c.engine(mod); a, t, s = mkr(c); po = c.out(e, 'o', 56)
        st, r = c.call(e, 'f_' + tn, [po, c.arr(e, 'a', a, const=True), t])
        c.ub(e)
        if st == 'ok': verdicts(c, e, po, s)
    return run

def build(tier):
    mods = {}; units = []
    pairs = [(96, 96), (128, 128), (160, 160), (256, 256), (96, 128), (128, 96), (96, 192), (160, 96), (128, 256), (256, 128), (512, 512), (128, 512), (512, 256), (WIDE, WIDE), (WIDE, 128), (96, WIDE)]
    if tier != 'quick': pairs += [(192, 192), (512, 512), (1024, 1024), (96, 512), (512, 128), (224, 192), (1024, 512), (512, 1024)]
    for N, M in pairs:
        mod = 'm%d_%d' % (N, M); n, m = N // 32, M // 32
        mods[mod] = (source(N, M, N == M), [])
        for lab, kind, d in (thin(max(n, m), pair_classes(n, m)) if WIDE in (N, M) else pair_classes(n, m)): units.append(Unit('Aeu<%d> vs Aeu<%d>, %s:' % (N, M, lab), objcase(mod, n, m, kind, d), 60))
        if N == M:
            units.append(Unit('Aeu<%d> vs itself:' % N, selfcase(mod, n), 60))
            for tn, tt, w in UNS:
                for lab, mkr in builtin_classes(w, n)[::1 if N != WIDE else 37]: units.append(Unit('Aeu<%d> vs %s, %s:' % (N, tt, lab), bcase(mod, n, tn, mkr), 60))
    return mods, units
