"""Bezout coefficients of the extended gcd."""
from props.util import *
import props.ugcd as G
import contracts, loops, math
from engine import same
from itertools import permutations
RULE = ('extended Euclid by induction: linear relations X*first + Y*second == G (mod 2^N) and (tX - Q*X)*first + (tY - Q*Y)*second == R (mod 2^N) are searched among the loop cells, '
        'assumed at the loop head, re-established after one body (divide, * and - by contract) and give the property at exit; families (g*A, g*B) are followed exactly and give witnesses')

class Relations:
    def __init__(t, N, F, S, bad): t.N = N; t.F = pof(F); t.S = pof(S); t.sizes = {N // 8}; t.bad = bad; t.rel = []; t.fail = set(); t.M = 1 << N
    def wants(t, e, f, h): return True
    def zero(t, p): return not {m: k for m, k in p.d.items() if k % t.M}
    def res(t, r, v):
        k, c = r; g = lambda i: pof(v[t.cells[i]])
        if k == 'lin': return g(c[0]) * t.F + g(c[1]) * t.S - g(c[2])
        X, Y, tX, tY, Q, R = (g(i) for i in c)
        return (tX - Q * X) * t.F + (tY - Q * Y) * t.S - R
    def target(t, r): return r[1][-1]
    def start(t, e, f, a):
        if any(m[0] != 'mem' or m[3] != t.N // 8 for m in a.M): return False
        t.cells = sorted(a.M)
        V0 = {m: a.entry[m] for m in t.cells}
        idx = [i for i, m in enumerate(t.cells) if isinstance(V0[m], (int, V))]
        lin = [('lin', c) for c in permutations(idx, 3) if ('lin', c) not in t.bad and t.zero(t.res(('lin', c), V0))]
        step = []
        for _, (X, Y, _g) in lin:
            rest = [i for i in idx if i not in (X, Y)]
            for tX, tY, Q, R in permutations(rest, 4):
                r = ('step', (X, Y, tX, tY, Q, R))
                if r not in t.bad and t.zero(t.res(r, V0)): step.append(r)
        # each relation defines one cell by the others; no cell may be defined through itself
        use = []; defd = set(); used = set()
        for r in step + lin:
            g = t.target(r); src = set(r[1][:-1])
            if g in defd or g in used or src & defd: continue
            use.append(r); defd.add(g); used |= src
        if not use: return False
        for i, m in enumerate(t.cells): a.vals[m] = mk(poly.opaque('cell%d' % i, 0, t.M - 1, ('bez', m)), 0, t.M - 1)
        for r in use:
            p = t.res(r, a.vals); m = t.cells[t.target(r)]
            p = p + pof(a.vals[m])
            a.vals[m] = mk(p - poly.opaque('w%d' % t.target(r), -(1 << 4 * t.N), 1 << 4 * t.N, ('bezw', m)) * t.M, 0, t.M - 1)
        t.rel = use
        return True
    def back(t, e, f, a):
        now = {}
        for m in t.cells:
            try: now[m] = e.load_bytes(Ptr(m[1], m[2]), m[3])
            except Undecided: now[m] = UNDEF
        for r in t.rel:
            if any(not isinstance(now[t.cells[i]], (int, V)) for i in r[1]) or not t.zero(t.res(r, now)): t.fail.add(r)

def induct(mod, N, rel):
    n = N // 32
    def run(c):
        bad = set()
        for attempt in range(6):
            e, W = G.setup(c, mod, N)
            F, S = G.operands(rel, N)
            t = Relations(N, F, S, bad); L = loops.Induct(t, r'::gcd\('); e.loop_hook = L
            outs = [c.out(e, x, 4 * n) for x in 'oxy']
            st, _ = c.call(e, 'f_ext', outs + [put_whole(c, e, 'a', n, F), put_whole(c, e, 'b', n, S)])
            if t.fail: bad |= t.fail; poly.reset(); continue
            break
        else: c.note('coefficients', 'undecided', 'no inductive relation'); return
        c.ub(e)
        if st != 'ok': return
        g, x, y = (e.load_bytes(o, 4 * n) for o in outs)
        if any(not isinstance(v, (int, V)) for v in (g, x, y)): c.note('coefficients', 'undecided', 'not single values'); return
        c.eq_mod('first*x + second*y == gcd', mk(t.F * pof(x) + t.S * pof(y) - pof(g), -(1 << 4 * N), 1 << 4 * N), 0, N)
    return run

def family(mod, N, A, B):
    n = N // 32; M = (1 << N) - 1
    def run(c):
        e, W = G.setup(c, mod, N)
        top = M // max(A, B)
        g = mk(poly.sym('g', 1, top), 1, top)
        outs = [c.out(e, x, 4 * n) for x in 'oxy']
        st, _ = c.call(e, 'f_ext', outs + [put_whole(c, e, 'a', n, mk(pof(g) * A, A, top * A)), put_whole(c, e, 'b', n, mk(pof(g) * B, B, top * B))])
        c.ub(e)
        if st != 'ok': return
        x, y = (e.load_bytes(o, 4 * n) for o in outs[1:])
        if any(not isinstance(v, (int, V)) for v in (x, y)): c.note('coefficients', 'refuted' if x is UNDEF or y is UNDEF else 'undecided', 'coefficient left unset'); return
        c.eq_mod('first*x + second*y == gcd', mk(pof(g) * (pof(x) * A + pof(y) * B - 1), -(1 << 4 * N), 1 << 4 * N), 0, N)
    return run

def build(tier):
    mods = {}; units = []
    for N in ([96, 160, 256] if tier == 'quick' else [96, 128, 160, 192, 256, 512]):
        mod = 'g%d' % N; mods[mod] = (G.source(N), [])
        for rel in ('gt', 'lt', 'eq'): units.append(Unit('Aeu<%d>::gcd(first, second, x, y) %s:' % (N, G.RELT[rel]), induct(mod, N, rel), 60))
        for A, B in G.pairs(12 if tier == 'quick' else 40) + G.big_pairs(N):
            if A and B: units.append(Unit('Aeu<%d>::gcd(first, second, x, y) first=%d*g second=%d*g:' % (N, A, B), family(mod, N, A, B), 60))
    lemmas(mods, units, [('udiv', r'^Aeu<96> \{Aeu<N>::divide\(a, b, q, r\);\} n', 'u96$'), ('umul', r'^Aeu<96>', '96')])
    return mods, units

from props.udiv import put_whole
