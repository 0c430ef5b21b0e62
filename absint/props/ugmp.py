"""GMP integration: construction from and comparison with mpz values."""
from props.util import *
import gmpmodel
RULE = ('the headers compiled with AESI_GMP_INTEGRATION against the real gmpxx.h, libgmp leaves by models of their documented semantics (limb arrays); mpz classes by sign and exact bit length with all bits free, '
        'lengths below and above the precision; equality over the partition by first differing block and by wrap-around (same low blocks, longer mpz)')

def source(N):
    s = '#include <gmpxx.h>\n' + HDR + '\nstatic constexpr std::size_t N = %d;\n' % N
    s += '''extern "C" void f_u(u32* o, const mpz_class* v) { Aeu<N> a(*v); st(o, a); }
extern "C" void f_s(u32* o, int* s, const mpz_class* v) { Aesi<N> a(*v); sts(o, s, a); }
extern "C" void f_eu(u32* o, const u32* p, const mpz_class* v) { Aeu<N> a; ld(a, p); o[0] = (a == *v); o[1] = (*v == a); o[2] = (a != *v); o[3] = (*v != a); o[4] = (a == -*v); o[5] = (a != -*v); }
extern "C" void f_es(u32* o, const u32* p, int sg, const mpz_class* v) { Aesi<N> a = sg == 0 ? mks<N>(p, 0) : sg > 0 ? mks<N>(p, 1) : mks<N>(p, -1); o[0] = (a == *v); o[1] = (*v == a); o[2] = (a != *v); o[3] = (*v != a); o[4] = (a == -*v); o[5] = (a != -*v); }
'''
    return s
EQ = ['==', 'reversed ==', '!=', 'reversed !=', '== -mpz', '!= -mpz']

def mpz(e, sg, bl):
    o = e.new_obj('mpz', 16, 'param')
    l = []
    for i in range(0, len(bl), 2):
        a = bl[i]; b = bl[i + 1] if i + 1 < len(bl) else 0
        if isinstance(a, int) and isinstance(b, int): l.append(a + (b << 32)); continue
        l.append(mk(pof(a) + pof(b) * (1 << 32), lo_(a) + (lo_(b) << 32), hi_(a) + (hi_(b) << 32)))
    gmpmodel.put(e, Ptr(o, 0), sg, l); e.objs[o].const = True
    return Ptr(o, 0)

def value(mod, N, sg, L, signed, low=None):
    """low: number of significant blocks among the low N bits (lengths above the precision)"""
    n = N // 32
    def run(c):
        c.looplimit = 8 * max(N, L) + 64; c.fresh(); e = c.engine(mod, models=gmpmodel.MODELS)
        m = -(-L // 32); bl = []
        for i in range(m):
            if low is not None and i < n: bl.append(0 if i >= low else c.sym('z%d' % i, 1 if i == low - 1 else 0))
            elif i == m - 1: bl.append(c.sym('z%d' % i, 1 << (L - 1) % 32, (2 << (L - 1) % 32) - 1))
            else: bl.append(c.sym('z%d' % i))
        po = c.out(e, 'o', 4 * n); v = mpz(e, sg, bl)
        if signed: ps = c.out(e, 's', 4); st, _ = c.call(e, 'f_s', [po, ps, v])
        else: st, _ = c.call(e, 'f_u', [po, v])
        c.ub(e)
        if st != 'ok': return
        c.eq_mod('magnitude', number(c.read(e, po, n)), compose(bl[:n]), N)
        if signed: c.eq_mod('sign', e.load_bytes(ps, 4), (sg if low is None or low else 0) & 0xffffffff)
    return run

def equality(mod, N, sg, L, rel, d, sa):
    """sa: None for the unsigned number, else the sign of the signed one"""
    n = N // 32; m = -(-L // 32)
    def run(c):
        c.looplimit = 8 * max(N, L) + 64; c.fresh(); e = c.engine(mod, models=gmpmodel.MODELS)
        z = []
        for i in range(m): z.append(c.sym('z%d' % i, *( (1 << (L - 1) % 32, (2 << (L - 1) % 32) - 1) if i == m - 1 else (0, 0xffffffff))))
        a = [z[i] if i < m else 0 for i in range(n)]
        if rel == 'wrap': a[0] = z[0] = c.sym('z0', 1)      # nonzero low part
        elif rel in ('gt', 'lt'):
            x = a[d] = c.sym('a%d' % d)
            for i in range(d): a[i] = c.sym('a%d' % i)
            f = x.p - pof(z[d]) if rel == 'gt' else pof(z[d]) - x.p
            poly.CLASS_FACTS.append(f - 1)
            if rel == 'gt': a[d] = mk(x.p, lo_(z[d]) + 1, 0xffffffff) if isinstance(z[d], V) else x
            if sa and rel == 'lt' and not any(i > d and not (isinstance(a[i], int) and a[i] == 0) for i in range(n)):
                a[0] = c.sym('a0n', 1) if d else a[0]
                if d == 0 and lo_(z[0]) < 2: return
                if d == 0: a[0] = c.sym('a0', 1)
        elif rel == 'atop':
            for i in range(d): a[i] = c.sym('a%d' % i)
            a[d] = c.sym('a%d' % d, 1)
        po = c.out(e, 'o', 24); v = mpz(e, sg, z)
        pa = c.arr(e, 'a', a, const=True)
        if sa is None: st, _ = c.call(e, 'f_eu', [po, pa, v])
        else: st, _ = c.call(e, 'f_es', [po, pa, sa & 0xffffffff, v])
        c.ub(e)
        if st != 'ok': return
        same = rel == 'eq'
        def eqs(s): return int(same and (L == 0 or (s == sa if sa is not None else s > 0)))
        want = [eqs(sg), eqs(sg), 1 - eqs(sg), 1 - eqs(sg), eqs(-sg), 1 - eqs(-sg)]
        for q, nm in enumerate(EQ): c.eq_mod(nm, e.load_bytes(Ptr(po.o, 4 * q), 4), want[q])
    return run

def build(tier):
    mods = {}; units = []
    for N in ([96, 128, 160] if tier == 'quick' else [96, 128, 160, 192, 256, 512]):
        n = N // 32
        for fl, tag in (([], ''), (['-DAESI_UNSAFE'], ' [AESI_UNSAFE]')):
            mod = 'gm%d%s' % (N, 'u' if fl else ''); mods[mod] = (source(N), ['-DAESI_GMP_INTEGRATION'] + fl)
            if fl and tier == 'quick' and N > 96: del mods[mod]; continue
            big = [N + 1, N + 31, N + 32, N + 33, N + 64, N + 65, 2 * N, 2 * N + 40, 4 * N + 7]
            for sg in (1, -1, 0):
                for L in ([0] if sg == 0 else list(range(1, N + 1)) + big):
                    for signed in (0, 1):
                        nm = '%s<%d> from a %s mpz of %d bits' % ('Aesi' if signed else 'Aeu', N, {1: 'positive', -1: 'negative', 0: 'zero'}[sg], L)
                        for low in ([None] if L <= N else range(n + 1)):
                            units.append(Unit(nm + (' (low %d blocks significant)' % low if low is not None else '') + tag + ':', value(mod, N, sg, L, signed, low), 60))
            step = 1 if tier != 'quick' else 7
            for sg in (1, -1, 0):
                for L in ([0] if sg == 0 else sorted(set(range(1, N + 1, step)) | {31, 32, 33, 63, 64, 65, N - 1, N}) + big[:7]):
                    m = -(-L // 32)
                    for sa in (None, -1, 0, 1):
                        rels = []
                        if sa == 0: rels = ['zero'] if L else ['eq']
                        else:
                            if L <= N and not (L == 0 and sa): rels.append('eq')
                            if L > N: rels.append('wrap')
                        who = '%s<%d>%s' % ('Aeu' if sa is None else 'Aesi', N, '' if sa is None else {1: ' positive', -1: ' negative', 0: ' zero'}[sa])
                        cls = []
                        if sa == 0: cls = [(rels[0], 0)]
                        else:
                            cls = [(r, 0) for r in rels]
                            if L: cls += [(r, d) for d in range(min(m, n)) for r in ('gt', 'lt')]
                            cls += [('atop', d) for d in range(m, n)]
                        for r, d in cls:
                            if r == 'zero':
                                units.append(Unit('%s compared with a %s mpz of %d bits%s:' % (who, 'positive' if sg > 0 else 'negative', L, tag), zeroeq(mod, N, sg, L), 60)); continue
                            lab = {'eq': 'same magnitude', 'wrap': 'same low blocks', 'gt': 'larger at block %d' % d, 'lt': 'smaller at block %d' % d, 'atop': 'longer, top block %d' % d}[r]
                            if r == 'gt' and d == m - 1 and L % 32 == 0 and L > N: pass
                            units.append(Unit('%s compared with a %s mpz of %d bits, %s%s:' % (who, {1: 'positive', -1: 'negative', 0: 'zero'}[sg], L, lab, tag), equality(mod, N, sg, L, r, d, sa), 60))
    return mods, units

def zeroeq(mod, N, sg, L):
    n = N // 32; m = -(-L // 32)
    def run(c):
        c.looplimit = 8 * max(N, L) + 64; c.fresh(); e = c.engine(mod, models=gmpmodel.MODELS)
        z = [c.sym('z%d' % i, *((1 << (L - 1) % 32, (2 << (L - 1) % 32) - 1) if i == m - 1 else (0, 0xffffffff))) for i in range(m)]
        if L > N:      # both a vanishing and a non-vanishing low part differ from zero
            z = [0] * n + z[n:]
        po = c.out(e, 'o', 24)
        st, _ = c.call(e, 'f_es', [po, c.arr(e, 'a', [0] * n, const=True), 0, mpz(e, sg, z)])
        c.ub(e)
        if st != 'ok': return
        for q, w in enumerate((0, 0, 1, 1, 0, 1)): c.eq_mod(EQ[q], e.load_bytes(Ptr(po.o, 4 * q), 4), w)
    return run
