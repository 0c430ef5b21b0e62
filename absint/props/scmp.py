"""Signed comparison is the numeric order (same precision, mixed precision, every built-in integral value)."""
from props.sutil import *
from props.smul import TY
RULE = 'operand pairs partitioned by signs, significant lengths and first differing block, built-in operands by sign, width range and relation to the magnitude - exhaustive; every operator result is then a constant of the class and must be the numeric relation'
EXTRA = ' { auto c = x.compareTo(y); o[12] = c == Comparison::less ? 1 : c == Comparison::greater ? 2 : c == Comparison::equal ? 0 : 3; auto d = (x <=> y); o[13] = d < 0 ? 1 : d > 0 ? 2 : d == 0 ? 0 : 3; }'

def source(N, M, builtins):
    s = HDR + '\nstatic constexpr std::size_t N = %d, M = %d;\n' % (N, M)
    for sa in (1, -1, 0):
        for sb in (1, -1, 0): s += 'extern "C" void f_%s_%s(u32* o, const u32* pa, const u32* pb) { Aesi<N> x = mks<N>(pa, %d); Aesi<M> y = mks<M>(pb, %d); %s %s %s }\n' % (SG[sa], SG[sb], sa, sb, CMPQ, RCMPQ, EXTRA)
        if N == M: s += 'extern "C" void f_self_%s(u32* o, const u32* pa) { Aesi<N> x = mks<N>(pa, %d); Aesi<N>& y = x; %s %s %s }\n' % (SG[sa], sa, CMPQ, RCMPQ, EXTRA)
        if builtins:
            for tn, tt, w, sd in TY: s += 'extern "C" void f_%s_%s(u32* o, const u32* pa, %s y) { Aesi<N> x = mks<N>(pa, %d); %s %s %s }\n' % (SG[sa], tn, tt, sa, CMPQ, RCMPQ, EXTRA)
    return s

def verdicts(c, e, po, s):
    got = c.read(e, po, 14)
    o = 0 if s == 0 else 1 if s < 0 else 2
    for i, (nm, w) in enumerate(cmp_expected(s, True) + [('compareTo', o), ('<=>', o)]): c.eq_mod(nm, got[i], w)

def rel(sa, sb, r):
    if sa != sb: return 1 if sa > sb else -1
    return 0 if sa == 0 else r * sa

def objcase(mod, n, m, sa, sb, cls):
    def run(c):
        e = c.engine(mod); po = c.out(e, 'o', 56)
        if sa and sb:
            p = make_pair(c, n, m, *cls)
            if p is None: return
            a, b, r = p
        else: a = c.blocks('a', n, cls if sa else 0); b = c.blocks('b', m, cls if sb else 0); r = 0
        st, _ = c.call(e, 'f_%s_%s' % (SG[sa], SG[sb]), [po, c.arr(e, 'a', a, const=True), c.arr(e, 'b', b, const=True)])
        c.ub(e)
        if st == 'ok': verdicts(c, e, po, rel(sa, sb, r))
    return run

def selfcase(mod, n, sa, k):
    def run(c):
        e = c.engine(mod); po = c.out(e, 'o', 56)
        st, _ = c.call(e, 'f_self_%s' % SG[sa], [po, c.arr(e, 'a', c.blocks('a', n, k), const=True)])
        c.ub(e)
        if st == 'ok': verdicts(c, e, po, 0)
    return run

def bclasses(w, sd, n):
    """(label, sign of t, sign of a or None, maker(c) -> (blocks, T, sign(|a|-T)))"""
    top = (1 << (w - 1)) - 1 if sd else (1 << w) - 1
    out = []
    def add(lab, st, sa, f): out.append((lab, st, sa, f))
    for sa in (1, -1):
        for k in range(1, n + 1): add('length %d, t == 0' % k, 0, sa, lambda c, k=k: (c.blocks('a', n, k), 0, 1))
    add('t == 0', 0, 0, lambda c: ([0] * n, 0, 0))
    for st in (1, -1) if sd else (1,):
        add('a == 0', st, 0, lambda c: ([0] * n, c.sym('t', 1, top), -1))
        if st < 0: add('a == 0, t minimum', -1, 0, lambda c: ([0] * n, 1 << (w - 1), -1))
        for sa in (1, -1):
            lim = 1 if w <= 32 else 2
            for k in range(lim + 1, n + 1):
                add('length %d' % k, st, sa, lambda c, k=k: (c.blocks('a', n, k), c.sym('t', 1, top), 1))
                if st < 0: add('length %d, t minimum' % k, -1, sa, lambda c, k=k: (c.blocks('a', n, k), 1 << (w - 1), 1))
            if lim == 1:
                def eq(c):
                    x = c.sym('x', 1, top); return [x] + [0] * (n - 1), x, 0
                def gt(c):
                    a = c.sym('a0', 2); t = c.sym('t', 1, min(top, 0xfffffffe)); poly.CLASS_FACTS.append(a.p - pof(t) - 1); return [a] + [0] * (n - 1), t, 1
                def lt(c):
                    if top < 2: return None
                    a = c.sym('a0', 1, top - 1); t = c.sym('t', 2, top); poly.CLASS_FACTS.append(t.p - a.p - 1); return [a] + [0] * (n - 1), t, -1
                add('|a| == |t|', st, sa, eq); add('one block, |a| > |t|', st, sa, gt); add('|a| < |t|', st, sa, lt)
            else:
                for x in mag_pairs(2, 2):
                    def f(c, x=x):
                        p = make_pair(c, 2, 2, *x[1:], hi_b=top >> 32)
                        if p is None: return None
                        a, b, r = p; T = compose(b); v = mk(T, 1, top)
                        return a + [0] * (n - 2), v, r
                    add(x[0], st, sa, f)
            if st < 0:
                m = 1 << (w - 1)
                def g(c, lo, hi, r):
                    if hi <= 0xffffffff: return [c.sym('a0', lo, hi)] + [0] * (n - 1), m, r
                    if lo > 0xffffffff and lo % (1 << 32): return [c.sym('a0', lo & 0xffffffff)] + [lo >> 32] + [0] * (n - 2), m, r
                    return [c.sym('a0'), c.sym('a1', lo >> 32, hi >> 32)] + [0] * (n - 2), m, r
                if w <= 32: cs = [(1, m - 1, -1), (m, m, 0), (m + 1, 0xffffffff, 1)]
                else: cs = [(1, 0xffffffff, -1), (1 << 32, m - 1, -1), (m + 1, m + 0xffffffff, 1), (m + (1 << 32), (1 << 64) - 1, 1)]
                for lo, hi, r in cs: add('t minimum, |a| in [%d,%d]' % (lo, hi), -1, sa, lambda c, lo=lo, hi=hi, r=r: g(c, lo, hi, r))
                if w > 32: add('t minimum, |a| == |t|', -1, sa, lambda c: ([0, m >> 32] + [0] * (n - 2), m, 0))
    return out

def bcase(mod, w, sa, st, tn, f):
    def run(c):
        e = c.engine(mod); po = c.out(e, 'o', 56)
        x = f(c)
        if x is None: return
        a, T, r = x
        t = T
        if st < 0: t = (1 << w) - T if isinstance(T, int) else mk(K(1 << w) - T.p, (1 << w) - T.hi, (1 << w) - T.lo)
        q, _ = c.call(e, 'f_%s_%s' % (SG[sa], tn), [po, c.arr(e, 'a', a, const=True), t])
        c.ub(e)
        if q == 'ok': verdicts(c, e, po, rel(sa, st, r))
    return run

def build(tier):
    mods = {}; units = []
    pairs = [(96, 96), (128, 128), (96, 128), (160, 96), (128, 192), (512, 512), (256, 512), (WIDE, WIDE)]
    if tier != 'quick': pairs += [(160, 160), (256, 256), (512, 512), (96, 256), (256, 128), (224, 192)]
    for N, M in pairs:
        mod = 'c%d_%d' % (N, M); n, m = N // 32, M // 32
        mods[mod] = (source(N, M, N == M), [])
        for sa in (1, -1, 0):
            for sb in (1, -1, 0):
                cl = [(x[0], x[1:]) for x in mag_pairs(n, m)] if sa and sb else [('length %d' % k, k) for k in range(1, (n if sa else m) + 1)] if sa or sb else [('', 0)]
                for lab, x in thin(max(n, m), cl): units.append(Unit('Aesi<%d> %s vs Aesi<%d> %s, %s:' % (N, SG[sa], M, SG[sb], lab), objcase(mod, n, m, sa, sb, x), 60))
            if N == M:
                for k in (thin(n, range(1, n + 1)) if sa else [0]): units.append(Unit('Aesi<%d> %s vs itself, length %d:' % (N, SG[sa], k), selfcase(mod, n, sa, k), 60))
        if N == M:
            for tn, tt, w, sd in TY:
                for lab, st, sa, f in bclasses(w, sd, n)[::1 if N != WIDE else 37]: units.append(Unit('Aesi<%d> %s vs %s %s, %s:' % (N, SG[sa], tt, SG[st], lab), bcase(mod, w, sa, st, tn, f), 60))
    return mods, units
