"""Unsigned construction, casts, copy and swap preserve the value."""
from props.util import *
RULE = 'value after construction, assignment, cast or swap == the value of the source (modulo the target width), all values at once'
ALL = [x for x in UNS if x[0] != 'bool'] + SGN

def source(N, Ms):
    s = HDR + '\nstatic constexpr std::size_t N = %d;\n' % N
    for tn, tt, w in UNS:
        s += 'extern "C" void c_%s(u32* po, %s t) { Aeu<N> a(t); st(po, a); }\n' % (tn, tt)
        s += 'extern "C" void ci_%s(u32* po, %s t) { Aeu<N> a = t; st(po, a); }\n' % (tn, tt)
        s += 'extern "C" void ca_%s(u32* po, const u32* pa, %s t) { Aeu<N> a; ld(a, pa); Aeu<N>& r = (a = t); if (&r != &a) __builtin_trap(); st(po, a); }\n' % (tn, tt)
    for tn, tt, w in ALL:
        s += 'extern "C" %s cast_%s(const u32* pa) { Aeu<N> a; ld(a, pa); return a.template integralCast<%s>(); }\n' % (tt, tn, tt)
    for M in Ms:
        s += 'extern "C" void p_%d(u32* po, const u32* pa) { Aeu<N> a; ld(a, pa); Aeu<%d> o = a.template precisionCast<%d>(); st(po, o); }\n' % (M, M, M)
    s += '''extern "C" void cc(u32* po, const u32* pa) { Aeu<N> a; ld(a, pa); Aeu<N> b(a); st(po, b); }
extern "C" void cm(u32* po, const u32* pa) { Aeu<N> a; ld(a, pa); Aeu<N> b(static_cast<Aeu<N>&&>(a)); st(po, b); }
extern "C" void as(u32* po, const u32* pa, const u32* pb) { Aeu<N> a, b; ld(a, pa); ld(b, pb); Aeu<N>& r = (b = a); if (&r != &b) __builtin_trap(); st(po, b); }
extern "C" void asself(u32* po, const u32* pa) { Aeu<N> a; ld(a, pa); Aeu<N>& r = a; a = r; st(po, a); }
extern "C" void vi(u32* po) { Aeu<N> a {}; st(po, a); }
extern "C" void sw(u32* po, u32* pq, const u32* pa, const u32* pb) { Aeu<N> a, b; ld(a, pa); ld(b, pb); a.swap(b); st(po, a); st(pq, b); }
extern "C" void swself(u32* po, const u32* pa) { Aeu<N> a; ld(a, pa); a.swap(a); st(po, a); }
extern "C" void blk(u32* po, const u32* pa) { Aeu<N> a; ld(a, pa); for (std::size_t i = 0; i < N / 32; ++i) po[i] = a.getBlock(i); }
'''
    return s

def case(N, fn, kind, tw=None, M=None, cls=None):
    n = N // 32
    def run(c):
        e = c.engine('u%d' % N)
        po = c.out(e, 'o', 4 * max(n, (M or N) // 32))
        a = c.blocks('a', n); A = compose(a); pa = c.arr(e, 'a', a, const=True)
        if kind == 'cons':
            t = c.sym('t', *cls)
            st, r = c.call(e, fn, [po, t]); c.ub(e)
            if st == 'ok': c.eq_mod('value', number(c.read(e, po, n)), pof(t))
        elif kind == 'consas':
            t = c.sym('t', *cls)
            st, r = c.call(e, fn, [po, pa, t]); c.ub(e)
            if st == 'ok': c.eq_mod('value', number(c.read(e, po, n)), pof(t))
        elif kind == 'cast':
            st, r = c.call(e, fn, [pa]); c.ub(e)
            if st == 'ok': c.eq_mod('value modulo 2^%d' % tw, r, A, tw)
        elif kind == 'prec':
            st, r = c.call(e, fn, [po, pa]); c.ub(e)
            if st == 'ok':
                g = number(c.read(e, po, M // 32)); c.eq_mod('value', g, A if M >= N else A - poly.floor_div(A, 1 << M) * (1 << M))
        elif kind == 'zero':
            st, r = c.call(e, fn, [po]); c.ub(e)
            if st == 'ok': c.eq_mod('value', number(c.read(e, po, n)), ZERO)
        elif kind == 'one':
            st, r = c.call(e, fn, [po, pa]); c.ub(e)
            if st == 'ok': c.eq_mod('value', number(c.read(e, po, n)), A)
        else:
            b = c.blocks('b', n); B = compose(b); pb = c.arr(e, 'b', b, const=True)
            if kind == 'two':
                st, r = c.call(e, fn, [po, pa, pb]); c.ub(e)
                if st == 'ok': c.eq_mod('value', number(c.read(e, po, n)), A)
            else:
                pq = c.out(e, 'q', 4 * n)
                st, r = c.call(e, fn, [po, pq, pa, pb]); c.ub(e)
                if st == 'ok':
                    c.eq_mod('left value', number(c.read(e, po, n)), B); c.eq_mod('right value', number(c.read(e, pq, n)), A)
    return run

def build(tier):
    mods = {}; units = []
    ws = [96, 128, 160, 256, 512, WIDE] if tier == 'quick' else [96, 128, 160, 192, 256, 512, 1024, WIDE]
    for N in ws:
        Ms = sorted({96, 128, 160, 256, N + 32, 2 * N} | ({N - 32} if N > 96 else set()) | ({512, 1024} if tier != 'quick' else set())); Ms = [x for x in Ms if x != N]
        mods['u%d' % N] = (source(N, Ms), [])
        U = lambda nm, *a, **k: units.append(Unit('Aeu<%d> %s' % (N, nm), case(N, *a, **k), 60))
        for tn, tt, w in UNS:
            for lo, hi in [(0, 0), (1, (1 << min(w, 32)) - 1)] + ([(1 << 32, (1 << 64) - 1)] if w > 32 else []):
                U('from %s in [%d,%d]' % (tt, lo, hi), 'c_' + tn, 'cons', cls=(lo, hi)); U('= %s in [%d,%d]' % (tt, lo, hi), 'ci_' + tn, 'cons', cls=(lo, hi)); U('assigned %s in [%d,%d]' % (tt, lo, hi), 'ca_' + tn, 'consas', cls=(lo, hi))
        for tn, tt, w in ALL: U('integralCast<%s>' % tt, 'cast_' + tn, 'cast', tw=w)
        for M in Ms: U('precisionCast<%d>' % M, 'p_%d' % M, 'prec', M=M)
        U('value-initialised', 'vi', 'zero'); U('copy', 'cc', 'one'); U('move', 'cm', 'one'); U('self-assignment', 'asself', 'one'); U('self-swap', 'swself', 'one'); U('setBlock/getBlock round trip', 'blk', 'one')
        U('assignment', 'as', 'two'); U('swap', 'sw', 'swap')
    return mods, units
