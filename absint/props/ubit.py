"""Bitwise operators: each of the N result bits equals the operation on the operand bits (every bit its own symbol)."""
from props.util import *
RULE = 'every result bit == the boolean operation on the two operand bits; operands as N independent bit symbols (and as block symbols for the wider precisions)'
OBJ = [('and', 'o = a & b;', '&'), ('andas', 'Aeu<N>& r = (a &= b); if (&r != &a) __builtin_trap(); o = a;', '&'),
       ('or', 'o = a | b;', '|'), ('oras', 'Aeu<N>& r = (a |= b); if (&r != &a) __builtin_trap(); o = a;', '|'),
       ('xor', 'o = a ^ b;', '^'), ('xoras', 'Aeu<N>& r = (a ^= b); if (&r != &a) __builtin_trap(); o = a;', '^'),
       ('not', 'o = ~a;', '~'), ('notnot', 'o = ~~a;', '='),
       ('andself', 'a &= a; o = a;', '='), ('orself', 'a |= a; o = a;', '='), ('xorself', 'a ^= a; o = a;', '0')]
INTG = [('andi', 'o = a & t;', '&'), ('ori', 'o = a | t;', '|'), ('xori', 'o = a ^ t;', '^'),
        ('iand', 'o = t & a;', '&'), ('ior', 'o = t | a;', '|'), ('ixor', 'o = t ^ a;', '^'),
        ('andasi', 'a &= t; o = a;', '&'), ('orasi', 'a |= t; o = a;', '|'), ('xorasi', 'a ^= t; o = a;', '^')]
TY = [x for x in UNS if x[0] != 'bool']

def source(N):
    s = HDR + '\nstatic constexpr std::size_t N = %d;\n' % N
    for nm, body, _ in OBJ: s += 'extern "C" void f_%s(u32* po, const u32* pa, const u32* pb) { Aeu<N> o, a, b; ld(a, pa); ld(b, pb); %s st(po, o); }\n' % (nm, body)
    for tn, tt, w in TY:
        for nm, body, _ in INTG:
            s += 'extern "C" void f_%s_%s(u32* po, const u32* pa, %s t) { Aeu<N> o, a; ld(a, pa); %s st(po, o); }\n' % (nm, tn, tt, body)
    return s

def spec1(op, x, y):
    if op == '&': return x * y
    if op == '|': return x + y - x * y
    if op == '^': return x + y - 2 * (x * y)
    if op == '~': return ONE - x
    if op == '=': return x
    return ZERO

def bits(c, nm, n): return [poly.sym('%s%d' % (nm, i), 0, 1) for i in range(n)]
def pack(bs, lo, hi):
    p = ZERO
    for i, b in enumerate(bs[lo:hi]): p = p + b * (1 << i)
    return mk(p)

def case(N, fn, op, tw, bitlevel):
    n = N // 32
    def run(c):
        e = c.engine('u%d' % N)
        po = c.out(e, 'o', 4 * n)
        if bitlevel:
            a = bits(c, 'a', N); av = [pack(a, 32 * i, 32 * i + 32) for i in range(n)]
            w = N if tw is None else tw
            b = bits(c, 'b', w)
            bv = [pack(b, 32 * i, 32 * i + 32) for i in range(n)] if tw is None else pack(b, 0, w)
            S = ZERO
            for i in range(N): S = S + spec1(op, a[i], b[i] if i < w else ZERO) * (1 << i)
        else:
            av = c.blocks('a', n)
            bv = c.blocks('b', n)
            S = ZERO
            for i in range(n):
                x, y = av[i].p, bv[i].p; z = poly.and_atom(x, y, 0xffffffff) if op in '&|^' else ZERO
                S = S + {'&': z, '|': x + y - z, '^': x + y - 2 * z, '~': K(0xffffffff) - x, '=': x, '0': ZERO}[op] * (1 << (32 * i))
        st, r = c.call(e, fn, [po, c.arr(e, 'a', av, const=True), c.arr(e, 'b', bv, const=True) if tw is None else bv])
        c.ub(e)
        if st == 'ok': c.eq_mod('value', number(c.read(e, po, n)), S, N)
    return run

def build(tier):
    mods = {}; units = []
    bl = [96, 128] if tier == 'quick' else [96, 128, 160, 256]
    ws = [160, 256, 512, WIDE] if tier == 'quick' else [512, 1024, 4096, WIDE]
    for N in bl + ws:
        mods['u%d' % N] = (source(N), [])
        for nm, body, op in OBJ: units.append(Unit('Aeu<%d> %s {%s}' % (N, nm, body), case(N, 'f_' + nm, op, None, N in bl), 200))
        if N in bl:
            for tn, tt, w in TY:
                for nm, body, op in INTG: units.append(Unit('Aeu<%d> %s<%s> {%s}' % (N, nm, tt, body), case(N, 'f_%s_%s' % (nm, tn), op, w, True), 200))
    return mods, units
