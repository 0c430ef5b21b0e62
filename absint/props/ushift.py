"""Shifts: x<<s == x*2^s mod 2^N, x>>s == floor(x/2^s), s>=N leaves x unchanged."""
from props.util import *
RULE = 'every shift amount 0..N-1 as its own class plus the class [N, max of the amount type], every amount type; value of all blocks at once'
TY = [x for x in UNS if x[0] != 'bool']
F = [('shl', 'o = a << t;', 1), ('shlas', 'Aeu<N>& r = (a <<= t); if (&r != &a) __builtin_trap(); o = a;', 1),
     ('shr', 'o = a >> t;', 0), ('shras', 'Aeu<N>& r = (a >>= t); if (&r != &a) __builtin_trap(); o = a;', 0)]

def source(N):
    s = HDR + '\nstatic constexpr std::size_t N = %d;\n' % N
    for tn, tt, w in TY:
        for nm, body, _ in F: s += 'extern "C" void f_%s_%s(u32* po, const u32* pa, %s t) { Aeu<N> o, a; ld(a, pa); %s st(po, o); }\n' % (nm, tn, tt, body)
    return s

def case(N, fn, left, tw, amounts, wide):
    n = N // 32
    base = None
    def run(c):
        nm0 = c.name
        for s in amounts + (['wide'] if wide else []):
            c.fresh(); e = c.engine('u%d' % N)
            c.name = '%s s=%s' % (nm0, s if s != 'wide' else '[%d,2^%d-1]' % (N, tw))
            a = c.blocks('a', n); A = compose(a)
            po = c.out(e, 'o', 4 * n)
            t = c.sym('s', N, (1 << tw) - 1) if s == 'wide' else s
            st, r = c.call(e, fn, [po, c.arr(e, 'a', a, const=True), t])
            c.ub(e)
            if st == 'ok':
                S = A if s == 'wide' else A * (1 << s) if left else poly.floor_div(A, 1 << s)
                c.eq_mod('value', number(c.read(e, po, n)), S, N)
    return run

def build(tier):
    mods = {}; units = []
    for N in ([96, 128, 160, 256, 512, WIDE] if tier == 'quick' else [96, 128, 160, 192, 256, 512, 1024, WIDE]):
        mods['u%d' % N] = (source(N), [])
        full = N <= 160 or tier != 'quick'
        for tn, tt, w in TY:
            am = [s for s in range(N) if s < (1 << w)] if full and (w == 32 or N <= 160) else [s for s in range(N) if s % 32 in (0, 1, 15, 16, 31) and s < (1 << w)]
            if N > 256: am = [s for s in range(N) if s % 32 in (0, 1, 13, 31)]
            if N == WIDE: am = [s for s in (0, 1, 33, 255, 256, 4112, 8191, 8192, 8223) if s < (1 << w)]
            for nm, body, left in F:
                for k in range(0, len(am), 64):
                    units.append(Unit('Aeu<%d> %s<%s> {%s}' % (N, nm, tt, body), case(N, 'f_%s_%s' % (nm, tn), left, w, am[k:k + 64], k == 0 and (1 << w) > N), 250))
    return mods, units
