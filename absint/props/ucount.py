"""Size and parity queries, per class of the position of the most significant bit (exhaustive)."""
from props.util import *
RULE = 'one class per position of the most significant bit and one for zero (exhaustive); each query result is a constant of the class; parity compared with the low bit'
Q = ['bitCount()', 'byteCount()', 'filledBlocksNumber()', 'isZero()', 'isOdd()', 'isEven()', 'getBitness()', 'totalBlocksNumber()']

def source(N):
    s = HDR + '\nstatic constexpr std::size_t N = %d;\n' % N
    q = ' '.join('o[%d] = a.%s;' % (i, x) for i, x in enumerate(Q))
    s += 'extern "C" void f_u(u64* o, const u32* p) { Aeu<N> a; ld(a, p); %s }\n' % q
    s += 'extern "C" void f_p(u64* o, const u32* p) { Aesi<N> a = mks<N>(p, 1); %s }\n' % q
    s += 'extern "C" void f_n(u64* o, const u32* p) { Aesi<N> a = mks<N>(p, -1); %s }\n' % q
    s += 'extern "C" void f_z(u64* o, const u32* p) { Aesi<N> a = mks<N>(p, 0); %s }\n' % q
    return s

def case(N, v, tops):
    n = N // 32
    def run(c):
        nm0 = c.name
        for top in tops:
            c.fresh(); e = c.engine('u%d' % N); c.name = '%s top bit %s' % (nm0, top)
            a = []
            for i in range(n):
                if top is None or i > top // 32: a.append(0)
                elif i == top // 32: a.append(c.sym('a%d' % i, 1 << (top % 32), (2 << (top % 32)) - 1))
                else: a.append(c.sym('a%d' % i))
            po = c.out(e, 'o', 8 * len(Q))
            st, r = c.call(e, 'f_' + v, [po, c.arr(e, 'a', a, const=True)])
            c.ub(e)
            if st != 'ok': continue
            got = c.read(e, po, len(Q), 8)
            b = 0 if top is None else top + 1
            odd = pof(a[0]) - 2 * poly.floor_div(pof(a[0]), 2)
            want = [b, (b + 7) // 8, (b + 31) // 32, int(b == 0), odd, ONE - odd, N, n]
            for q, g, w in zip(Q, got, want): c.eq_mod(q, g, w)
    return run

def build(tier):
    mods = {}; units = []
    for N in ([96, 128, 256, 512, WIDE] if tier == 'quick' else [96, 128, 160, 192, 256, 512, 1024, WIDE]):
        mods['u%d' % N] = (source(N), [])
        tops = [None] + list(range(N))
        if N > 256: tops = [None] + [t for t in range(N) if t % 32 in (0, 1, 7, 8, 15, 16, 24, 31)]
        if N == WIDE: tops = [None, 0, 255, 256, 8159, 8160, 8191, 8192, 8223]
        for v, nm in (('u', 'Aeu'), ('p', 'positive Aesi'), ('n', 'negative Aesi')):
            ts = [t for t in tops if t is not None or v == 'u']
            for k in range(0, len(ts), 32): units.append(Unit('%s<%d> queries' % (nm, N), case(N, v, ts[k:k + 32]), 200))
        units.append(Unit('zero Aesi<%d> queries' % N, case(N, 'z', [None]), 60))
    return mods, units
