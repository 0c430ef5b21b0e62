"""getString: the canonical numeral (C17) and nothing outside the buffer (C18)."""
from props.util import *
import contracts, iomodel
from props.udiv import codes, put_whole
RULES = {
    'C17': 'numbers partitioned by sign, number of digits in the base and buffer size (exactly fitting, and all larger sizes at once); every character written must equal the symbolic digit character of the numeral, after sign and prefix; division by the base is its Euclidean contract',
    'C18': 'numbers partitioned by sign and number of digits against the buffer size: every size up to six past the numeral as its own class (the buffer is an object of exactly that size, each store an obligation), numbers longer than the buffer as one class per size, all larger sizes as one class; the returned count must not exceed the size',
}
RULE = 'numbers partitioned by sign, number of digits and buffer size'

def source(N, wide):
    C = 'wchar_t' if wide else 'char'
    s = HDR + '\nstatic constexpr std::size_t N = %d;\nextern "C" void f_codes(u32* o) { Aeu<N> a = 1u, b = 2u; o[0] = (u32)(unsigned char)a.compareTo(b); o[1] = (u32)(unsigned char)a.compareTo(a); o[2] = (u32)(unsigned char)b.compareTo(a); }\n' % N
    for base, up in ((2, 0), (8, 0), (10, 0), (16, 0), (16, 1)):
        a = '%d%s' % (base, ', true' if up else '')
        s += 'extern "C" u64 u_%d%s(const u32* pa, %s* t, u64 n, bool show) { Aeu<N> a; ld(a, pa); return a.template getString<%s>(t, n, show); }\n' % (base, 'u' if up else '', C, a)
        for sg, nm in ((1, 'p'), (-1, 'n'), (0, 'z')):
            s += 'extern "C" u64 %s_%d%s(const u32* pa, %s* t, u64 n, bool show) { Aesi<N> a = mks<N>(pa, %d); return a.template getString<%s>(t, n, show); }\n' % (nm, base, 'u' if up else '', C, sg, a)
        s += 'extern "C" u64 d_%d%s(const u32* pa, %s* t, u64 n) { Aeu<N> a; ld(a, pa); return a.template getString<%s>(t, n); }\n' % (base, 'u' if up else '', C, a)
    return s

PRE = {2: '0b', 8: '0o', 10: '', 16: '0x'}

def number_of(c, e, N, base, K_):
    """(argument, digit values from the least significant) of a number with exactly K_ digits, the digits as symbols; K_ = ('more', B): more than B digits; ('nib', counts): hexadecimal digit count per block; 0: zero"""
    n = N // 32; top = (1 << N) - 1
    if isinstance(K_, tuple) and K_[0] == 'nib':        # hexadecimal digits counted per block
        bl = []; ds = []
        for j, kj in enumerate(K_[1]):
            q = ZERO
            for i in range(8):
                d = 0 if i >= kj else mk(poly.sym('d%d.%d' % (j, i), 1 if i == kj - 1 else 0, 15))
                q = q + pof(d) * 16 ** i; ds.append(d)
            bl.append(mk(q, 0, (1 << 32) - 1))
        while isinstance(ds[-1], int): ds.pop()
        return c.arr(e, 'a', bl + [0] * (n - len(bl)), const=True), ds
    if K_ == 0: return c.arr(e, 'a', [0] * n, const=True), [0]
    more = isinstance(K_, tuple); k = K_[1] if more else K_
    ds = [poly.sym('d%d' % i, 0, base - 1) for i in range(k if more else k - 1)]
    hm = top // base ** len(ds)
    hm = hm if more else min(hm, base - 1)
    h = mk(poly.sym('h', 1, hm)) if hm > 1 else 1
    p = pof(h) * base ** len(ds); lo = base ** len(ds); hi = hm * lo
    for i, d in enumerate(ds): p = p + d * base ** i; hi += (base - 1) * base ** i
    if hi > top: poly.CLASS_FACTS.append(K(top) - p)
    v = mk(p, lo, min(hi, top))
    if base & (base - 1) == 0 and not more and base != 8:
        w = base.bit_length() - 1; bl = []
        for j in range(n):
            q = ZERO
            for i in range(len(ds) + 1):
                if 32 * j <= i * w < 32 * j + 32: q = q + (ds[i] if i < len(ds) else pof(h)) * (1 << (i * w - 32 * j))
            bl.append(mk(q, 0, (1 << 32) - 1) if q.d else 0)
        return c.arr(e, 'a', bl, const=True), [mk(d, 0, base - 1) for d in ds] + [h]
    return put_whole(c, e, 'a', n, v), [mk(d, 0, base - 1) for d in ds] + [h]

def digits_of(e, num, base, K_, up):
    """expected digit characters, most significant first"""
    return [iomodel.digchar(e, d, up) for d in reversed(num)]

def case(N, wide, kind, base, up, K_, show, size, which):
    """kind: u/p/n/z/d; size: int, or ('from', k): every size of k and more"""
    n = N // 32; cw = 4 if wide else 1
    def run(c):
        mod = 'g%d%s' % (N, 'w' if wide else 'c')
        cd = codes(c, mod); c.fresh(); e = c.engine(mod)
        W = contracts.Whole(c.mods[mod], N, cd, skip=()); e.contracts = W.C
        pa, num = number_of(c, e, N, base, K_)
        if isinstance(size, tuple):
            cap = size[1]; bs = c.sym('bufferSize', cap, (1 << 62) - 1); buf = e.new_obj('buffer', 1 << 66, 'buffer')
        else: cap = bs = size; buf = e.new_obj('buffer', size * cw, 'buffer')
        st, r = c.call(e, '%s_%d%s' % (kind, base, 'u' if up else ''), [pa, Ptr(buf, 0), bs] + ([int(show)] if kind != 'd' else [])); c.ub(e)
        if st != 'ok': return
        cells = e.st.mem.cells(buf) or {}
        if which == 'C18':
            if r is UNDEF or not isinstance(r, (int, V)): c.eq_mod('count', r, 0); return
            z = e.ge0(pof(bs) - pof(r), lo_(bs) - hi_(r), hi_(bs) - lo_(r))
            c.eq_mod('returned count does not exceed the buffer size', mk(z), 1)
            if isinstance(size, tuple):
                far = [o for o, (s, v) in cells.items() if o + s > cap * cw]
                c.note('stores stay below the smallest size of the class', 'proved' if not far else 'undecided', 'store at %s' % far[:3])
            return
        text = ([45] if kind == 'n' else []) + ([ord(x) for x in PRE[base]] if show else []) + digits_of(e, num, base, K_, up)
        L = len(text)
        for i, ch in enumerate(text):
            g = e.load_bytes(Ptr(buf, i * cw), cw)
            if not c.eq_mod('character %d of %d' % (i, L), g, ch): break
        g = e.load_bytes(Ptr(buf, L * cw), cw)
        if g is UNDEF: c.eq_mod('count of characters', r, L)
        else:
            c.eq_mod('terminator after the numeral', g, 0); 
            if isinstance(r, (int, V)): c.eq_mod('count of characters', mk(pof(r) if r != L else K(L + 1)), L + 1)
        far = [o for o in cells if o > L * cw]
        c.note('nothing written behind the numeral', 'proved' if not far else 'refuted', 'stores at offsets %s' % far[:4])
    return run

def nibs(N, full):
    """per-block digit counts"""
    n = N // 32; out = []
    for b in range(2, min(n, 3) + 1):
        tops = [1, 5, 8] if full else [1, 8]
        low = range(9) if b == 2 else (0, 1, 7, 8)
        import itertools
        for t in tops:
            for q in itertools.product(low, repeat=b - 1): out.append(('nib', q + (t,)))
    return out
def klabel(K_):
    return 'zero' if K_ == 0 else '%d digits' % K_ if isinstance(K_, int) else 'more than %d digits' % K_[1] if K_[0] == 'more' else 'blocks of %s digits' % '+'.join(str(x) for x in reversed(K_[1]))
def klen(K_): return max(K_, 1) if isinstance(K_, int) else 8 * (len(K_[1]) - 1) + K_[1][-1]
def cap_(N, base):
    k = 0
    while base ** k < 1 << N: k += 1
    return k
KN = {'u': 'Aeu<%d>', 'p': 'positive Aesi<%d>', 'n': 'negative Aesi<%d>', 'z': 'zero Aesi<%d>', 'd': 'Aeu<%d> (default showBase)'}

def build(tier, which='C17'):
    mods = {}; units = []
    ws = [96, 64, 128] if tier == 'quick' else [96, 64, 128, 160, 192, 256, 512]
    for N in ws:
        for wide in (False, True):
            mods['g%d%s' % (N, 'w' if wide else 'c')] = (source(N, wide), [])
            for base, up in ((2, 0), (8, 0), (10, 0), (16, 0), (16, 1)):
                cap = cap_(N, base)
                for kind in 'upnzd':
                    for show in ((0, 1) if kind != 'd' else (0,)):
                        pl = (1 if kind == 'n' else 0) + (len(PRE[base]) if show else 0)
                        ks = [0] if kind == 'z' else list(range(0 if kind in 'ud' else 1, cap + 1))
                        full = N == ws[0] or tier != 'quick'
                        if not full: ks = [k for k in ks if k % 8 in (0, 1) or k >= cap - 1]
                        def U(K_, size):
                            nm = '%s as %s getString<%d%s>%s, %s, %s' % (KN[kind] % N, 'wchar_t' if wide else 'char', base, ', true' if up else '', ' with base' if show else '', klabel(K_), 'buffer of %d' % size if isinstance(size, int) else 'any buffer of %d or more' % size[1])
                            units.append(Unit(nm, case(N, wide, kind, base, up, K_, show, size, which), 60))
                        if which == 'C17':
                            if kind in 'pd' and base in (2, 8) and tier == 'quick': ks = [k for k in ks if k % 4 == 1]
                            if base == 16 and kind != 'z' and N <= 96: ks = list(ks) + nibs(N, tier != 'quick')
                            for k in ks:
                                L = pl + klen(k)
                                U(k, max(L + 1, 4 + (1 if kind == 'n' else 0))); U(k, ('from', max(L + 2, 5 + (1 if kind == 'n' else 0))))
                        else:
                            if kind == 'd': continue
                            if kind == 'p' and tier == 'quick': ks = ks[:3] + ks[-2:]
                            for k in ks:
                                L = pl + max(k, 1)
                                lo = 0 if k <= 1 or base == 16 else k
                                for B in range(lo, L + 6): U(k, B)
                                U(k, ('from', L + 6))
                            if base == 16 and kind in 'un' and N <= 96:
                                for k in nibs(N, False)[::1 if tier != 'quick' else 5]:
                                    for B in range(0, pl + klen(k) + 4, 1 if tier != 'quick' else 3): U(k, B)
                            if kind != 'z' and base != 16:
                                for B in range(0, cap):
                                    if not full and B % 8 > 2: continue
                                    U(('more', max(B, 0)), B)
    lemmas(mods, units, [('udiv', r'^Aeu<96> \{Aeu<N>::divide\(a, b, q, r\);\} n', 'u96$')] if which == 'C17' else [])
    return mods, units
