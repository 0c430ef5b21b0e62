"""Unsigned multiplication family: exact modulo 2^N, per class of significant block counts of both operands."""
from props.util import *
RULE = 'value of the result blocks == product of the operands modulo 2^N, for every pair of significant-block-count classes (k1,k2), 0<=k<=N/32'

OBJ = [
 ('mul', 'o = a * b;', 'AB'),
 ('mulas', 'Aeu<N>& r = (a *= b); if (&r != &a) __builtin_trap(); o = a;', 'AB'),
]
SELF = [
 ('sqas', 'a *= a; o = a;', 'AA'),
 ('sq', 'o = a * a;', 'AA'),
]
INTG = [
 ('muli', 'o = a * t;', 0),
 ('cmuli', 'const Aeu<N>& ca = a; o = ca * t;', 0),
 ('mulasi', 'Aeu<N>& r = (a *= t); if (&r != &a) __builtin_trap(); o = a;', 0),
 ('imul', 'o = t * a;', 0),
]

def source(N):
    s = HDR + '\nstatic constexpr std::size_t N = %d;\n' % N
    for nm, body, _ in OBJ: s += 'extern "C" void f_%s(u32* po, const u32* pa, const u32* pb) { Aeu<N> o, a, b; ld(a, pa); ld(b, pb); %s st(po, o); }\n' % (nm, body)
    for nm, body, _ in SELF: s += 'extern "C" void f_%s(u32* po, const u32* pa) { Aeu<N> o, a; ld(a, pa); %s st(po, o); }\n' % (nm, body)
    for tn, tt, w in UNS:
        for nm, body, _ in INTG:
            s += 'extern "C" void f_%s_%s(u32* po, const u32* pa, %s t) { Aeu<N> o, a; ld(a, pa); %s st(po, o); }\n' % (nm, tn, tt, body)
    return s

def case(N, fn, k1, k2, tw, cls=None):
    n = N // 32
    def run(c):
        e = c.engine('u%d' % N)
        a = c.blocks('a', n, k1); A = compose(a)
        args = [c.out(e, 'o', 4 * n), c.arr(e, 'a', a, const=True)]
        if tw is not None:
            t = c.sym('t', *cls); B = pof(t); args.append(t)
        elif k2 is None: B = A
        else:
            b = c.blocks('b', n, k2); B = compose(b); args.append(c.arr(e, 'b', b, const=True))
        st, r = c.call(e, fn, args)
        c.ub(e)
        if st == 'ok': c.eq_mod('value', number(c.read(e, args[0], n)), A * B, N)
    return run

def build(tier):
    mods = {}; units = []
    full = [96, 128, 160, 256] if tier == 'quick' else [96, 128, 160, 192, 256, 320, 512]
    for N in sorted(set(full + [WIDE] + ([512] if tier == 'quick' else [1024]))):
        mods['u%d' % N] = (source(N), [])
        n = N // 32
        ks = range(n + 1) if N in full else [0, 1, n] if N == WIDE else [0, 1, n // 2, n - 1, n]
        lim = 120 if tier == 'quick' else 600
        for nm, body, _ in OBJ:
            for k1 in ks:
                for k2 in [k for k in ks if N != WIDE or k1 < 2 or k < 2]: units.append(Unit('Aeu<%d> %s {%s} blocks(%d,%d)' % (N, nm, body, k1, k2), case(N, 'f_' + nm, k1, k2, None), lim))
        for nm, body, _ in SELF:
            for k1 in ([k for k in ks if k < 2] if N == WIDE else ks): units.append(Unit('Aeu<%d> %s {%s} blocks(%d)' % (N, nm, body, k1), case(N, 'f_' + nm, k1, None, None), lim))
        for tn, tt, w in UNS:
            for nm, body, _ in INTG:
                for k1 in ks:
                    for lo, hi in [(0, 0), (1, (1 << min(w, 32)) - 1)] + ([(1 << 32, (1 << 64) - 1)] if w > 32 else []):
                        units.append(Unit('Aeu<%d> %s<%s> {%s} blocks(%d) t in [%d,%d]' % (N, nm, tt, body, k1, lo, hi), case(N, 'f_%s_%s' % (nm, tn), k1, None, w, (lo, hi)), lim))
    units.sort(key=lambda u: -int(u.name[4:u.name.index('>')]))
    return mods, units
