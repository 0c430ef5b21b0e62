"""Signed multiplication: exact product (magnitude modulo 2^N), sign the product of the signs."""
from props.sutil import *
RULE = 'operands partitioned by sign and significant length, built-in factors by 0 / most negative / sign and width range; result magnitude == |a|*|b| modulo 2^N and sign == product of the signs (zero when the stored magnitude is zero)'
BIN = [('mul', 'o = a * b;'), ('mulas', 'Aesi<N>& r = (a *= b); if (&r != &a) __builtin_trap(); o = a;')]
SELF = [('sq', 'o = a * a;'), ('sqas', 'a *= a; o = a;')]
INTG = [('muli', 'o = a * t;'), ('mulasi', 'Aesi<N>& r = (a *= t); if (&r != &a) __builtin_trap(); o = a;'), ('imul', 'o = t * a;')]
TY = [(n, t, w, False) for n, t, w in UNS] + [(n, t, w, True) for n, t, w in SGN]

def int_classes(w, sd):
    """exhaustive classes of a w-bit built-in value: (label, sign, lo, hi of the magnitude)"""
    out = [('0', 0, 0, 0)]
    top = (1 << (w - 1)) - 1 if sd else (1 << w) - 1
    rs = [(1, min(top, (1 << 32) - 1))] + ([(1 << 32, top)] if w > 32 else [])
    for lo, hi in rs: out.append(('[%d,%d]' % (lo, hi), 1, lo, hi))
    if sd:
        for lo, hi in rs: out.append(('[-%d,-%d]' % (hi, lo), -1, lo, hi))
        out.append(('minimum', -1, 1 << (w - 1), 1 << (w - 1)))
    return out

def int_value(c, w, cl, nm='t'):
    """(argument, magnitude polynomial, sign)"""
    _, s, lo, hi = cl
    T = c.sym(nm, lo, hi)
    if lo <= 0xffffffff < hi: pass
    if s >= 0: return T, pof(T), s
    M = 1 << w
    return (M - T if isinstance(T, int) else mk(K(M) - T.p, M - hi, M - lo)), pof(T), s

def source(N):
    s = HDR + '\nstatic constexpr std::size_t N = %d;\n' % N
    for sa in (1, -1, 0):
        for nm, body in SELF: s += 'extern "C" void f_%s_%s(u32* po, int* sg, const u32* pa) { Aesi<N> o, a = mks<N>(pa, %d); %s sts(po, sg, o); }\n' % (nm, SG[sa], sa, body)
        for sb in (1, -1, 0):
            for nm, body in BIN: s += 'extern "C" void f_%s_%s_%s(u32* po, int* sg, const u32* pa, const u32* pb) { Aesi<N> o, a = mks<N>(pa, %d), b = mks<N>(pb, %d); %s sts(po, sg, o); }\n' % (nm, SG[sa], SG[sb], sa, sb, body)
        for tn, tt, w, sd in TY:
            for nm, body in INTG: s += 'extern "C" void f_%s_%s_%s(u32* po, int* sg, const u32* pa, %s t) { Aesi<N> o, a = mks<N>(pa, %d); %s sts(po, sg, o); }\n' % (nm, tn, SG[sa], tt, sa, body)
    return s

def case(N, fn, sa, k1, sb, k2, w=None, cl=None, canon=False):
    n = N // 32
    def run(c):
        e = c.engine('m%d' % N)
        a = c.blocks('a', n, k1 if sa else 0)
        if cl is not None and cl[0] == 'minimum':
            # factor 2^(w-1): blocks split where the shifted value crosses a block boundary
            q = 32 - (w - 1) % 32
            for i in range(k1):
                h = c.sym('h%d' % i, 0, (1 << (32 - q)) - 1); l = c.sym('l%d' % i, 0, (1 << q) - 1)
                a[i] = mk(h.p * (1 << q) + l.p, 0, 0xffffffff)
            if k1: poly.CLASS_FACTS.append(a[k1 - 1].p - 1); a[k1 - 1] = mk(a[k1 - 1].p, 1, 0xffffffff)
        A = compose(a)
        po = c.out(e, 'o', 4 * n); sg = c.out(e, 'sg', 4)
        args = [po, sg, c.arr(e, 'a', a, const=True)]
        if w is not None: t, B, s2 = int_value(c, w, cl); args.append(t)
        elif k2 is None: B = A; s2 = sa
        else: b = c.blocks('b', n, k2 if sb else 0); B = compose(b); s2 = sb; args.append(c.arr(e, 'b', b, const=True))
        st, _ = c.call(e, fn, args)
        c.ub(e)
        if st == 'ok': check_signed(c, e, po, sg, n, N, A * B, sa * s2, canon=canon)
    return run

def build(tier, canon=False):
    mods = {}; units = []
    ws = [96, 128, 256, 512] if tier == 'quick' else [96, 128, 160, 192, 256, 512]
    if canon: ws = [96] if tier == 'quick' else [96, 128]
    lim = 120 if tier == 'quick' else 600
    for N in ws:
        n = N // 32
        mods['m%d' % N] = (source(N), [])
        L = lambda s: thin(n, range(1, n + 1)) if s else [0]
        for sa in (1, -1, 0):
            for nm, body in SELF:
                for k in L(sa): units.append(Unit('Aesi<%d> %s a {%s} length %d' % (N, SG[sa], body, k), case(N, 'f_%s_%s' % (nm, SG[sa]), sa, k, None, None, canon=canon), lim))
            for sb in (1, -1, 0):
                for nm, body in BIN:
                    for k in L(sa):
                        for l in L(sb): units.append(Unit('Aesi<%d> %s a, %s b {%s} lengths %d,%d' % (N, SG[sa], SG[sb], body, k, l), case(N, 'f_%s_%s_%s' % (nm, SG[sa], SG[sb]), sa, k, sb, l, canon=canon), lim))
            for tn, tt, w, sd in TY:
                if canon and tn not in ('i32', 'u64'): continue
                for nm, body in INTG:
                    for cl in int_classes(w, sd):
                        for k in L(sa):
                          if n > 5 and 'min' in cl[0] and (k > n - 2 or k > 7): continue      # sign after a wrapped power-of-two product: exhaustive up to 160 bits only
                          units.append(Unit('Aesi<%d> %s a {%s} %s t %s length %d' % (N, SG[sa], body, tt, cl[0], k), case(N, 'f_%s_%s_%s' % (nm, tn, SG[sa]), sa, k, None, 0, w, cl, canon), lim))
    return mods, units
