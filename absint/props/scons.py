"""Signed construction, assignment, casts, copy and swap preserve the value."""
from props.sutil import *
from props.smul import TY, int_classes, int_value
RULE = 'sources partitioned by sign and significant length (built-in values: 0 / most negative / sign and width range); sign and magnitude of the target must be those of the source (magnitude modulo the target width)'
ALL = [x for x in TY if x[0] != 'bool']

def source(N, Ms):
    s = HDR + '\nstatic constexpr std::size_t N = %d;\n' % N
    for tn, tt, w, sd in TY:
        s += 'extern "C" void c_%s(u32* po, int* sg, %s t) { Aesi<N> a(t); sts(po, sg, a); }\n' % (tn, tt)
        s += 'extern "C" void ci_%s(u32* po, int* sg, %s t) { Aesi<N> a = t; sts(po, sg, a); }\n' % (tn, tt)
    for sa in (1, -1, 0):
        q = SG[sa]
        for tn, tt, w, sd in TY:
            s += 'extern "C" void ca_%s_%s(u32* po, int* sg, const u32* pa, %s t) { Aesi<N> a = mks<N>(pa, %d); Aesi<N>& r = (a = t); if (&r != &a) __builtin_trap(); sts(po, sg, a); }\n' % (tn, q, tt, sa)
        for tn, tt, w, sd in ALL: s += 'extern "C" %s cast_%s_%s(const u32* pa) { Aesi<N> a = mks<N>(pa, %d); return a.template integralCast<%s>(); }\n' % (tt, tn, q, sa, tt)
        for M in Ms: s += 'extern "C" void p_%d_%s(u32* po, int* sg, const u32* pa) { Aesi<N> a = mks<N>(pa, %d); Aesi<%d> o = a.template precisionCast<%d>(); sts(po, sg, o); }\n' % (M, q, sa, M, M)
        s += '''extern "C" void cc_%s(u32* po, int* sg, const u32* pa) { Aesi<N> a = mks<N>(pa, %d); Aesi<N> b(a); sts(po, sg, b); }
extern "C" void as_%s(u32* po, int* sg, const u32* pa) { Aesi<N> a = mks<N>(pa, %d); Aesi<N> b = -7; Aesi<N>& r = (b = a); if (&r != &b) __builtin_trap(); sts(po, sg, b); }
extern "C" void asself_%s(u32* po, int* sg, const u32* pa) { Aesi<N> a = mks<N>(pa, %d); Aesi<N>& r = a; a = r; sts(po, sg, a); }
extern "C" void swself_%s(u32* po, int* sg, const u32* pa) { Aesi<N> a = mks<N>(pa, %d); a.swap(a); sts(po, sg, a); }
extern "C" void uc_%s(u32* po, const u32* pa) { Aesi<N> a = mks<N>(pa, %d); Aeu<N> b = a.unsignedCast(); st(po, b); }
''' % ((q, sa) * 5)
        for sb in (1, -1, 0):
            s += 'extern "C" void sw_%s_%s(u32* po, int* sg, u32* pq, int* sh, const u32* pa, const u32* pb) { Aesi<N> a = mks<N>(pa, %d), b = mks<N>(pb, %d); a.swap(b); sts(po, sg, a); sts(pq, sh, b); }\n' % (q, SG[sb], sa, sb)
    s += 'extern "C" void vi(u32* po, int* sg) { Aesi<N> a {}; sts(po, sg, a); }\nextern "C" void di(u32* po, int* sg) { Aesi<N> a; sts(po, sg, a); }\n'
    s += 'extern "C" void fu(u32* po, int* sg, const u32* pa) { Aeu<N> b; ld(b, pa); Aesi<N> a(b); sts(po, sg, a); }\n'
    s += 'extern "C" void rt(u32* po, int* sg, const u32* pa) { Aeu<N> b; ld(b, pa); Aesi<N> a(b); Aesi<N> c(a.unsignedCast()); sts(po, sg, c); }\n'
    return s

def case(N, fn, kind, sa=0, k=0, w=None, cl=None, M=None, sb=0, l=0, canon=False, sd=False):
    n = N // 32
    def run(c):
        e = c.engine('c%d' % N)
        on = (M or N) // 32
        po = c.out(e, 'o', 4 * on); sg = c.out(e, 'sg', 4)
        a = c.blocks('a', n, k if kind == 'fu' or sa else 0); A = compose(a); pa = c.arr(e, 'a', a, const=True)
        if kind in ('cons', 'consas'):
            t, T, s = int_value(c, w, cl)
            st, _ = c.call(e, fn, [po, sg, t] if kind == 'cons' else [po, sg, pa, t]); c.ub(e)
            if st == 'ok': check_signed(c, e, po, sg, n, N, T, s, canon=canon)
        elif kind == 'cast':
            if canon: return
            st, r = c.call(e, fn, [pa]); c.ub(e)
            if st == 'ok': c.eq_mod('value modulo 2^%d' % w, r, A * (sa if sd else abs(sa)), w)
        elif kind == 'zero':
            st, _ = c.call(e, fn, [po, sg]); c.ub(e)
            if st == 'ok': check_signed(c, e, po, sg, n, N, ZERO, 0, canon=canon)
        elif kind == 'mag':
            if canon: return
            st, _ = c.call(e, fn, [po, pa]); c.ub(e)
            if st == 'ok': c.eq_mod('magnitude', number(c.read(e, po, n)), A)
        elif kind == 'swap':
            b = c.blocks('b', n, l if sb else 0); B = compose(b); pb = c.arr(e, 'b', b, const=True)
            pq = c.out(e, 'q', 4 * n); sh = c.out(e, 'sh', 4)
            st, _ = c.call(e, fn, [po, sg, pq, sh, pa, pb]); c.ub(e)
            if st == 'ok':
                check_signed(c, e, po, sg, n, N, B, sb, 'left ', canon=canon); check_signed(c, e, pq, sh, n, N, A, sa, 'right ', canon=canon)
        else:
            st, _ = c.call(e, fn, [po, sg, pa]); c.ub(e)
            if st == 'ok': check_signed(c, e, po, sg, on, M or N, A, sa if kind != 'fu' else (1 if k else 0), canon=canon)
    return run

def build(tier, canon=False):
    mods = {}; units = []
    ws = [96, 128, 160, 512, WIDE] if tier == 'quick' else [96, 128, 160, 192, 256, 512, WIDE]
    if canon: ws = [96, 128]
    for N in ws:
        n = N // 32
        Ms = sorted({96, 128, 160, N + 32, 2 * N} | ({N - 32} if N > 96 else set()) | ({64, 512} if tier != 'quick' else {64})); Ms = [x for x in Ms if x != N]
        mods['c%d' % N] = (source(N, Ms), [])
        U = lambda nm, *a, **q: units.append(Unit('Aesi<%d> %s' % (N, nm), case(N, *a, canon=canon, **q), 60))
        L = lambda s: thin(n, range(1, n + 1)) if s else [0]
        for tn, tt, w, sd in TY:
            for cl in int_classes(w, sd):
                U('from %s %s' % (tt, cl[0]), 'c_' + tn, 'cons', w=w, cl=cl); U('= %s %s' % (tt, cl[0]), 'ci_' + tn, 'cons', w=w, cl=cl)
                for sa in (1, -1, 0): U('%s object assigned %s %s' % (SG[sa], tt, cl[0]), 'ca_%s_%s' % (tn, SG[sa]), 'consas', sa, n if sa else 0, w=w, cl=cl)
        for sa in (1, -1, 0):
            for k in L(sa):
                q = '%s, length %d ' % (SG[sa], k); s = SG[sa]
                for tn, tt, w, sd in ALL: U(q + 'integralCast<%s>' % tt, 'cast_%s_%s' % (tn, s), 'cast', sa, k, w=w, sd=sd)
                for M in [x for x in Ms if not (n > 10 and k == n and x == N - 32)]: U(q + 'precisionCast<%d>' % M, 'p_%d_%s' % (M, s), 'one', sa, k, M=M)
                for nm, f in (('copy', 'cc'), ('assignment', 'as'), ('self-assignment', 'asself'), ('self-swap', 'swself')): U(q + nm, f + '_' + s, 'one', sa, k)
                U(q + 'unsignedCast', 'uc_' + s, 'mag', sa, k)
                for sb in (1, -1, 0):
                    for l in L(sb): U(q + 'swap with %s, length %d' % (SG[sb], l), 'sw_%s_%s' % (s, SG[sb]), 'swap', sa, k, sb=sb, l=l)
        U('value-initialised', 'vi', 'zero')
        for k in thin(n, range(n + 1)): U('from unsigned of length %d' % k, 'fu', 'fu', 0, k); U('unsigned round trip, length %d' % k, 'rt', 'fu', 0, k)
    return mods, units
