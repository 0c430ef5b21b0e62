"""Unsigned addition family: exact modulo 2^N."""
from props.util import *

WQ = [96, 128, 160, 256, 512, WIDE]
WT = [96, 128, 160, 192, 256, 512, 768, 1024, 2048, 4096, WIDE]

# name, body, nargs, spec(A,B) in the ring Z/2^N
OBJ = [
 ('add', 'o = a + b;', lambda A, B: A + B),
 ('addas', 'a += b; o = a;', lambda A, B: A + B),
 ('addas_ret', 'Aeu<N>& r = (a += b); if (&r != &a) __builtin_trap(); o = r;', lambda A, B: A + B),
 ('sub', 'o = a - b;', lambda A, B: A - B),
 ('subas', 'a -= b; o = a;', lambda A, B: A - B),
 ('subas_ret', 'Aeu<N>& r = (a -= b); if (&r != &a) __builtin_trap(); o = r;', lambda A, B: A - B),
 ('addself', 'a += a; o = a;', lambda A, B: A + A),
 ('subself', 'a -= a; o = a;', lambda A, B: ZERO),
 ('addself2', 'o = a + a;', lambda A, B: A + A),
 ('neg', 'o = -a;', lambda A, B: -A),
 ('pos', 'o = +a;', lambda A, B: A),
 ('negneg', 'o = -(-a);', lambda A, B: A),
 ('preinc', 'Aeu<N>& r = ++a; if (&r != &a) __builtin_trap(); o = r;', lambda A, B: A + 1),
 ('predec', 'Aeu<N>& r = --a; if (&r != &a) __builtin_trap(); o = r;', lambda A, B: A - 1),
 ('postinc_old', 'o = a++;', lambda A, B: A),
 ('postinc_new', 'a++; o = a;', lambda A, B: A + 1),
 ('postdec_old', 'o = a--;', lambda A, B: A),
 ('postdec_new', 'a--; o = a;', lambda A, B: A - 1),
 ('chain', 'o = a + b - a;', lambda A, B: B),
]
INTG = [
 ('addi', 'o = a + t;', lambda A, T: A + T),
 ('addasi', 'Aeu<N>& r = (a += t); if (&r != &a) __builtin_trap(); o = a;', lambda A, T: A + T),
 ('subi', 'o = a - t;', lambda A, T: A - T),
 ('subasi', 'a -= t; o = a;', lambda A, T: A - T),
 ('iadd', 'o = t + a;', lambda A, T: A + T),
 ('isub', 'o = t - a;', lambda A, T: T - A),
]

def source(N):
    s = HDR + '\nstatic constexpr std::size_t N = %d;\n' % N
    for nm, body, _ in OBJ:
        s += 'extern "C" void f_%s(u32* po, const u32* pa, const u32* pb) { Aeu<N> o, a, b; ld(a, pa); ld(b, pb); %s st(po, o); }\n' % (nm, body)
    for tn, tt, w in UNS:
        for nm, body, _ in INTG:
            s += 'extern "C" void f_%s_%s(u32* po, const u32* pa, %s t) { Aeu<N> o, a; ld(a, pa); %s st(po, o); }\n' % (nm, tn, tt, body)
    return s

def case(N, fn, spec, tw):
    n = N // 32
    def run(c):
        e = c.engine('u%d' % N)
        a = c.blocks('a', n); A = compose(a)
        if tw is None:
            b = c.blocks('b', n); B = compose(b); bp = c.arr(e, 'b', b, const=True)
        else:
            t = c.sym('t', 0, (1 << tw) - 1); B = pof(t); bp = t
        po = c.out(e, 'o', 4 * n); pa = c.arr(e, 'a', a, const=True)
        st, r = c.call(e, fn, [po, pa, bp])
        bad = c.ub(e)
        if st == 'dead' and not bad: c.note('returns', 'undecided', 'no return path')
        if st == 'ok':
            c.eq_mod('value', number(c.read(e, po, n)), spec(A, B), N, 'operator in %s' % c.name)
    return run

def build(tier):
    ws = WQ if tier == 'quick' else WT
    mods = {}; units = []
    for N in ws:
        mods['u%d' % N] = (source(N), [])
        for nm, body, spec in OBJ:
            if N > 1024 and nm in ('postdec_new', 'postdec_old', 'predec'): continue       # the borrow chain exceeds the domain's size limit
            units.append(Unit('Aeu<%d> %s {%s}' % (N, nm, body), case(N, 'f_' + nm, spec, None), 100))
        for tn, tt, w in UNS:
            for nm, body, spec in INTG:
                units.append(Unit('Aeu<%d> %s<%s> {%s}' % (N, nm, tt, body), case(N, 'f_%s_%s' % (nm, tn), spec, w), 100))
    return mods, units
