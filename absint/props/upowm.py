"""Modular exponentiation."""
from props.util import *
import props.ugcd as G
import contracts, math
from props.udiv import codes, put_whole
RULE = ('abstract residues base^e mod m keyed by the exponent polynomial: divide by the modulus (its Euclidean contract) maps a product of residues to the residue of the exponent sum, joins interpolate the exponent by the branch condition; '
        'the result must be the residue of the power, for every exponent bit length, all exponent bits free')

def source(N, P):
    return HDR + '''
static constexpr std::size_t N = %d, P = %d;
extern "C" void f_codes(u32* o) { Aeu<N> a = 1u, b = 2u; o[0] = (u32)(unsigned char)a.compareTo(b); o[1] = (u32)(unsigned char)a.compareTo(a); o[2] = (u32)(unsigned char)b.compareTo(a); }
extern "C" void f_powm(u32* po, const u32* pb, const u32* pp, const u32* pm) { Aeu<N> b, m; Aeu<P> p; ld(b, pb); ld(p, pp); ld(m, pm); auto r = Aeu<N>::powm(b, p, m); st(po, r); }
extern "C" void f_powt(u32* po, const u32* pb, const u32* pp, const u32* pm) { Aeu<N> b, m; Aeu<P> p; ld(b, pb); ld(p, pp); ld(m, pm); auto r = Aeu<N>::template powm<P>(b, p, m); st(po, r); }
''' % (N, P)

class Residues:
    def __init__(r, c, W, B, m, below):
        r.W = W; r.B = B; r.m = m; r.hi = hi_(m) - 1; r.one = int(isinstance(m, int) and m == 1)
        r.below = below
    def res(r, ex):
        """base^ex mod m as a value"""
        if r.one: return 0
        if not ex.d: return 1
        if r.below and ex == ONE: return r.B
        return mk(poly.pw(ex, pof(r.B), pof(r.m), r.hi), 0, r.hi)
    def exp(r, v):
        """exponent when v is a residue"""
        if r.one: return None
        if isinstance(v, int): return ZERO if v == 1 else None
        if not isinstance(v, V): return None
        if v.p == pof(r.B): return ONE
        a = poly.single(v.p)
        if a is not None and poly.ATOMS[a].kind == 'pw': return poly.ATOMS[a].a
        return None
    def exp_mono(r, p):
        """exponent of a product of residues and the base"""
        if len(p.d) != 1: return None
        (m, c), = p.d.items()
        if c != 1: return None
        e = ZERO; b = poly.single(pof(r.B))
        for a in m:
            A = poly.ATOMS[a]
            if A.kind == 'pw': e = e + A.a
            elif a == b: e = e + 1
            else: return None
        return e
    def divide(r, old):
        def h(e, args, f):
            W = r.W
            n = W.get(e, args[0]); d = W.get(e, args[1])
            if pof(d) == pof(r.m) and not r.one:
                x = r.exp_mono(pof(n))
                if x is not None:
                    R = r.res(x)
                    q = mk(poly.opaque('quotient', 0, W.M - 1), 0, W.M - 1)
                    if R is n: q = 0
                    W.put(e, args[2], q); W.put(e, args[3], R); return None
            return old(e, args, f)
        return h
    def hook(r, c, x, y, sz):
        if sz != r.W.B or not isinstance(x, (int, V)) or not isinstance(y, (int, V)): return None
        a, b = r.exp(x), r.exp(y)
        if a is None or b is None or not (a - b).is_const(): return mk(poly.opaque('joined number', min(lo_(x), lo_(y)), max(hi_(x), hi_(y))), min(lo_(x), lo_(y)), max(hi_(x), hi_(y)))
        d = a - b
        return r.res(b + d * c)

def unit(mod, N, P, fn, L, cls):
    n = N // 32; pn = P // 32
    def run(c):
        cd = codes(c, mod); c.fresh(); e = c.engine(mod)
        W = contracts.Whole(c.mods[mod], N, cd, skip=('divide',)); e.contracts = dict(W.C)
        M = 1 << N
        top = math.isqrt(M - 1) + 1           # (m - 1)^2 < 2^N
        if cls == 'one': m = 1; B = mk(poly.sym('base', 0, M - 1))
        elif cls == 'below': m = mk(poly.sym('m', 2, top)); B = mk(poly.sym('base', 0, top - 1)); poly.CLASS_FACTS.append(m.p - B.p - 1)
        else: m = mk(poly.sym('m', 2, top)); B = mk(poly.sym('base', 2, M - 1)); poly.CLASS_FACTS.append(B.p - m.p)
        R = Residues(c, W, B, m, cls == 'below')
        old = contracts.divide_contract(W)
        for f in c.mods[mod].funcs.values():
            A = 'Aeu<%dul>' % N
            if not f.decl and f.dem == '%s::divide(%s const&, %s const&, %s&, %s&)' % (A, A, A, A, A): e.contracts[f.name] = R.divide(old)
        e.merge_pre = R.hook; e.whole_size = W.B
        bits = [0] * P
        for i in range(L): bits[i] = poly.sym('p%d' % i, 0, 1) if i < L - 1 else ONE
        pw = ZERO
        for i in range(L): pw = pw + bits[i] * (1 << i)
        blocks = []
        for j in range(pn):
            v = ZERO
            for i in range(32):
                b = bits[32 * j + i]
                if isinstance(b, Poly): v = v + b * (1 << i)
            blocks.append(mk(v, 0, 0xffffffff) if v.d else 0)
        if P == N: pp = put_whole(c, e, 'p', n, mk(pw))
        else: pp = c.arr(e, 'p', blocks, const=True)
        po = c.out(e, 'o', 4 * n)
        st, _ = c.call(e, fn, [po, put_whole(c, e, 'b', n, B), pp, put_whole(c, e, 'm', n, m)])
        c.ub(e)
        if st == 'ok': c.eq_mod('powm == base^power mod m', e.load_bytes(po, 4 * n), pof(R.res(pw)))
    return run
CLS = {'below': 'base < m', 'above': 'base >= m > 1', 'one': 'm == 1'}

def build(tier):
    mods = {}; units = []
    sets = [(96, 96), (128, 96), (96, 128)] if tier == 'quick' else [(96, 96), (128, 96), (96, 128), (160, 160), (256, 96), (96, 256), (128, 128), (256, 256)]
    for N, P in sets + [(96, 288), (288, 288)]:
        mod = 'p%d_%d' % (N, P); mods[mod] = (source(N, P), [])
        for fn, nm in (('f_powm', 'powm'), ('f_powt', 'powm<%d>' % P)):
            for L in (range(P + 1) if P != 288 else (0, 1, 31, 32, 33, 64, 65, 128, 192, 255, 256, 257, 288)):
                for cls in CLS: units.append(Unit('Aeu<%d>::%s(base, Aeu<%d> of %d bits, m) %s:' % (N, nm, P, L, CLS[cls]), unit(mod, N, P, fn, L, cls), 60))
    lemmas(mods, units, [('udiv', r'^Aeu<96> \{Aeu<N>::divide\(a, b, q, r\);\} n', 'u96$')])
    return mods, units
