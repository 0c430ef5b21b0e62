"""gcd and lcm."""
from props.util import *
import contracts, loops, math, re
from engine import same
from props.udiv import codes, put_whole
RULE = ('Euclid loop by induction: gcd(u,v) == gcd(first,second) for an inferred pair of loop cells, established before the loop, preserved by the body (divide by its Euclidean contract), exit gives v == 0 and result u; '
        'families (g*A, g*B), A,B coprime constants and g any number, are followed exactly through the loop; lcm with gcd by contract on first=g*a, second=g*b')

def source(N):
    s = HDR + '\nstatic constexpr std::size_t N = %d;\nextern "C" void f_codes(u32* o) { Aeu<N> a = 1u, b = 2u; o[0] = (u32)(unsigned char)a.compareTo(b); o[1] = (u32)(unsigned char)a.compareTo(a); o[2] = (u32)(unsigned char)b.compareTo(a); }\n' % N
    s += '''extern "C" void f_gcd(u32* po, const u32* pa, const u32* pb) { Aeu<N> a, b; ld(a, pa); ld(b, pb); auto g = Aeu<N>::gcd(a, b); st(po, g); }
extern "C" void f_ext(u32* po, u32* px, u32* py, const u32* pa, const u32* pb) { Aeu<N> a, b, x, y; ld(a, pa); ld(b, pb); auto g = Aeu<N>::gcd(a, b, x, y); st(po, g); st(px, x); st(py, y); }
extern "C" void f_lcm(u32* po, const u32* pa, const u32* pb) { Aeu<N> a, b; ld(a, pa); ld(b, pb); auto g = Aeu<N>::lcm(a, b); st(po, g); }
'''
    return s

def multiple(p, u):
    """p is a polynomial multiple of the single-symbol value u (or zero)"""
    if not p.d: return True
    if isinstance(u, int): return u != 0 and all(c % u == 0 for c in p.d.values())
    if len(u.p.d) != 1: return p == u.p or p == -u.p
    (um, uc), = u.p.d.items()
    if uc not in (1, -1) or len(um) != 1: return False
    return all(um[0] in m for m in p.d)

def gcd_equiv(x, y):
    """gcd(x0,x1) == gcd(y0,y1): one component shared (either order), the others congruent modulo it"""
    for a, b in ((0, 1), (1, 0)):
        for p, q in ((0, 1), (1, 0)):
            if same(x[a], y[p]):
                d = pof(x[b]) - pof(y[q])
                if multiple(d, x[a]) or multiple(pof(x[b]) + pof(y[q]), x[a]): return True
    return False

class EuclidT:
    """pairs of whole-number cells whose gcd is that of the arguments"""
    def __init__(t, c, N, F, S): t.c = c; t.N = N; t.F = F; t.S = S; t.sizes = {N // 8}; t.pairs = None; t.u = None
    def wants(t, e, f, h): return True
    def start(t, e, f, a):
        cells = {}
        for m in a.M:
            if m[0] != 'mem' or m[3] != t.N // 8: return False
        # whole-number cells of the state: changed ones and the others
        t.cells = sorted(a.M)
        vals = {m: a.entry[m] for m in t.cells if isinstance(a.entry[m], (int, V))}
        t.pairs = [(x, y) for x in vals for y in vals if x != y and gcd_equiv((vals[x], vals[y]), (t.F, t.S))]
        for i, m in enumerate(t.cells): a.vals[m] = mk(poly.opaque('cell%d' % i, 0, (1 << t.N) - 1, ('gcd', m)), 0, (1 << t.N) - 1)
        t.vals = a.vals; t.backs = 0; t.dec = None
        return bool(t.pairs)
    def back(t, e, f, a):
        now = {}
        for m in t.cells:
            try: now[m] = e.load_bytes(Ptr(m[1], m[2]), m[3])
            except Undecided: now[m] = UNDEF
        t.backs += 1
        keep = []
        for x, y in t.pairs:
            if isinstance(now[x], (int, V)) and isinstance(now[y], (int, V)) and gcd_equiv((now[x], now[y]), (a.vals[x], a.vals[y])): keep.append((x, y))
        t.pairs = keep
        # variant: some cell strictly decreases
        dec = [m for m in t.cells if isinstance(now[m], (int, V)) and poly.prove_nonneg(a.vals[m].p - 1 - pof(now[m]), e.st.facts + poly.CLASS_FACTS)]
        t.dec = dec if t.dec is None else [m for m in t.dec if m in dec]
    def final(t, e, r):
        """result is the gcd of a surviving pair at loop exit"""
        for x, y in t.pairs or ():
            for u, v in ((x, y), (y, x)):
                if same(r, t.vals[u]) and poly.prove_nonneg(-t.vals[v].p, e.st.facts): return True
        return False

def setup(c, mod, N, zero_ok=True):
    cd = codes(c, mod); c.fresh()
    e = c.engine(mod)
    W = contracts.Whole(c.mods[mod], N, cd, skip=(), zero_ok=zero_ok); e.contracts = dict(W.C)
    return e, W

def operands(rel, N):
    M = (1 << N) - 1
    if rel == 'gt':
        F = mk(poly.sym('F', 2, M)); S = mk(poly.sym('S', 1, M - 1)); poly.CLASS_FACTS.append(F.p - S.p - 1)
    elif rel == 'lt':
        S = mk(poly.sym('S', 2, M)); F = mk(poly.sym('F', 1, M - 1)); poly.CLASS_FACTS.append(S.p - F.p - 1)
    elif rel == 'eq': F = S = mk(poly.sym('F', 1, M))
    elif rel == 's0': F = mk(poly.sym('F', 1, M)); S = 0
    else: F = 0; S = mk(poly.sym('S', 1, M))
    return F, S
RELT = {'gt': 'first > second > 0', 'lt': '0 < first < second', 'eq': 'first == second > 0', 's0': 'second zero', 'f0': 'first zero'}

def induct(mod, N, fn, rel):
    n = N // 32
    def run(c):
        e, W = setup(c, mod, N)
        F, S = operands(rel, N)
        t = EuclidT(c, N, F, S); L = loops.Induct(t, r'::gcd\('); e.loop_hook = L
        outs = [c.out(e, 'o', 4 * n)] + ([c.out(e, 'x', 4 * n), c.out(e, 'y', 4 * n)] if fn == 'f_ext' else [])
        st, _ = c.call(e, fn, outs + [put_whole(c, e, 'a', n, F), put_whole(c, e, 'b', n, S)])
        c.ub(e)
        if st != 'ok': return
        r = e.load_bytes(outs[0], 4 * n)
        if not L.used:
            # the loop was followed exactly
            want = F if rel in ('eq', 's0') else S if rel == 'f0' else None
            if want is None: c.note('gcd', 'undecided', 'no loop treated by induction')
            else: c.eq_mod('result', r, pof(want))
            return
        c.note('a loop cell strictly decreases at every back edge', 'proved' if t.dec or t.dec is None else 'undecided', '' if t.dec else 'no decreasing cell', kind='loop')
        c.note('loop invariant gcd(u,v) == gcd(first,second) established, preserved and giving the result at exit', 'proved' if t.final(e, r) else 'undecided', '' if t.pairs else 'no inductive pair of cells')
    return run

def family(mod, N, fn, A, B):
    n = N // 32; M = (1 << N) - 1
    def run(c):
        e, W = setup(c, mod, N)
        top = M // max(A, B)
        g = mk(poly.sym('g', 1, top), 1, top)
        F = mk(g.p * A, 0 if not A else A, top * A) if A else 0; S = mk(g.p * B, B, top * B) if B else 0
        outs = [c.out(e, 'o', 4 * n)] + ([c.out(e, 'x', 4 * n), c.out(e, 'y', 4 * n)] if fn == 'f_ext' else [])
        st, _ = c.call(e, fn, outs + [put_whole(c, e, 'a', n, F), put_whole(c, e, 'b', n, S)])
        c.ub(e)
        if st == 'ok': c.eq_mod('gcd', e.load_bytes(outs[0], 4 * n), g.p)
    return run

def lcm(mod, N, rel):
    n = N // 32; M = (1 << N) - 1
    def run(c):
        e, W = setup(c, mod, N)
        g = mk(poly.sym('g', 1, M), 1, M); a = poly.sym('a', 1, M); b = poly.sym('b', 1, M) if rel != 'eq' else a
        F = mk(g.p * a, 1, M); S = mk(g.p * b, 1, M)
        poly.CLASS_FACTS += [K(M) - F.p, K(M) - S.p]
        if rel == 'gt': poly.CLASS_FACTS.append(F.p - S.p - 1)
        if rel == 'lt': poly.CLASS_FACTS.append(S.p - F.p - 1)
        def gcdc(e, args, f):
            x, y = W.get(e, args[-2]), W.get(e, args[-1])
            if {pof(x), pof(y)} != {F.p, S.p}: raise Undecided('gcd of other values')
            W.put(e, args[0], g)
        for f in c.mods[mod].funcs.values():
            if not f.decl and re.fullmatch(r'Aeu<%dul>::gcd\(Aeu<%dul> const&, Aeu<%dul> const&\)' % (N, N, N), f.dem): e.contracts[f.name] = gcdc
        po = c.out(e, 'o', 4 * n)
        st, _ = c.call(e, 'f_lcm', [po, put_whole(c, e, 'a', n, F), put_whole(c, e, 'b', n, S)])
        c.ub(e)
        if st == 'ok': c.eq_mod('lcm == first*second/gcd', e.load_bytes(po, 4 * n), g.p * a * b, N)
    return run

def lcmfam(mod, N, A, B):
    n = N // 32; M = (1 << N) - 1
    def run(c):
        e, W = setup(c, mod, N)
        top = M // (A * B)
        g = mk(poly.sym('g', 1, top), 1, top)
        po = c.out(e, 'o', 4 * n)
        st, _ = c.call(e, 'f_lcm', [po, put_whole(c, e, 'a', n, mk(pof(g) * A, A, top * A)), put_whole(c, e, "b", n, mk(pof(g) * B, B, top * B))])
        c.ub(e)
        if st == 'ok': c.eq_mod('lcm', e.load_bytes(po, 4 * n), pof(g) * (A * B))
    return run

def big_pairs(N):
    a, b = 1, 1
    while a + b < 1 << (N - 3): a, b = a + b, a
    out = [(a, b), (b, a)]
    h = N // 2
    for x, y in (((1 << (N - 3)) - 1, (1 << h) + 1), ((1 << (N - 2)) - 3, 1 << (N - 3)), ((1 << h) - 1, (1 << (N - 3)) + 1), ((1 << h) + 1, (1 << h) - 1), ((1 << 32) + 1, (1 << 32)), (1 << (N - 3), (1 << h) - 1)):
        if math.gcd(x, y) == 1: out += [(x, y)]
    return out

def pairs(k):
    out = [(1, 0), (0, 1), (1, 1)]
    for a in range(1, k + 1):
        for b in range(1, k + 1):
            if a != b and math.gcd(a, b) == 1: out.append((a, b))
    out += [(89, 55), (55, 89), (377, 610), (610, 377), (1000, 999), (999, 1000), (1 << 20, 3), (3, 1 << 20), ((1 << 32) - 1, 1 << 31), (0xfffffffb, 0xffffffff), (12345, 6789 // 3)]
    return [(a, b) for a, b in out if math.gcd(a, b) == 1]

def build(tier):
    mods = {}; units = []
    for N in ([96, 160, 256] if tier == 'quick' else [96, 128, 160, 192, 256, 512]):
        mod = 'g%d' % N; mods[mod] = (source(N), [])
        for fn, nm in (('f_gcd', 'gcd(first, second)'), ('f_ext', 'gcd(first, second, x, y)')):
            for rel in RELT: units.append(Unit('Aeu<%d>::%s %s:' % (N, nm, RELT[rel]), induct(mod, N, fn, rel), 60))
            for A, B in pairs(12 if tier == 'quick' else 40) + big_pairs(N): units.append(Unit('Aeu<%d>::%s first=%d*g second=%d*g:' % (N, nm, A, B), family(mod, N, fn, A, B), 60))
        for A, B in pairs(8 if tier == 'quick' else 24) + big_pairs(N):
            if 0 < A * B < 1 << N: units.append(Unit('Aeu<%d>::lcm(%d*g, %d*g):' % (N, A, B), lcmfam(mod, N, A, B), 60))
        if N < 160: continue      # returned in registers below; the template code is the same
        for rel in ('gt', 'lt', 'eq'): units.append(Unit('Aeu<%d>::lcm %s:' % (N, RELT[rel]), lcm(mod, N, rel), 60))
    lemmas(mods, units, [('udiv', r'^Aeu<96> \{Aeu<N>::divide\(a, b, q, r\);\} n', 'u96$')])
    return mods, units
