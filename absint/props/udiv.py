"""Unsigned division: n == q*d + r with 0 <= r < d, every form."""
from props.util import *
import contracts, functools
RULE = ('n partitioned by its exact bit length, d a symbolic number, relation n<d / n==d / n>d by class: the shift-subtract loop is interpreted with the template invariant remainder < divisor '
        'attached at its join; obligations q*d + r == n (exact polynomial identity) and d-1-r >= 0; callees on whole numbers are replaced by their own verified contracts, re-checked here as callee lemmas')

DEF = [   # name, body, second operand: object / type, outputs q, r
 ('div4', 'Aeu<N>::divide(a, b, q, r);', 'o', 'qr'),
 ('div2', 'auto p = Aeu<N>::divide(a, b); q = p.first; r = p.second;', 'o', 'qr'),
 ('ops', 'q = a / b; r = a % b;', 'o', 'qr'),
 ('ass', 'q = a; r = a; Aeu<N>& x = (q /= b); if (&x != &q) __builtin_trap(); Aeu<N>& y = (r %= b); if (&y != &r) __builtin_trap();', 'o', 'qr'),
]
SELF = [('self', 'q = a / a; r = a % a;'), ('selfass', 'q = a; q /= q; r = a; r %= r;'), ('selfdiv', 'Aeu<N>::divide(a, a, q, r);')]
INT = [('opsi', 'q = a / b; r = a % b;'), ('assi', 'q = a; r = a; Aeu<N>& x = (q /= b); if (&x != &q) __builtin_trap(); Aeu<N>& y = (r %= b); if (&y != &r) __builtin_trap();')]
REV = [('revi', 'q = b / a; r = b % a;')]
TYS = [x for x in UNS if x[0] != 'bool']

def source(N, ints):
    s = HDR + '\nstatic constexpr std::size_t N = %d;\nextern "C" void f_codes(u32* o) { Aeu<N> a = 1u, b = 2u; o[0] = (u32)(unsigned char)a.compareTo(b); o[1] = (u32)(unsigned char)a.compareTo(a); o[2] = (u32)(unsigned char)b.compareTo(a); }\n' % N
    for nm, body, _, _ in DEF: s += 'extern "C" void f_%s(u32* pq, u32* pr, const u32* pa, const u32* pb) { Aeu<N> q, r, a, b; ld(a, pa); ld(b, pb); %s st(pq, q); st(pr, r); }\n' % (nm, body)
    for nm, body in SELF: s += 'extern "C" void f_%s(u32* pq, u32* pr, const u32* pa) { Aeu<N> q, r, a; ld(a, pa); %s st(pq, q); st(pr, r); }\n' % (nm, body)
    if ints:
        for tn, tt, w in TYS:
            for nm, body in INT + REV: s += 'extern "C" void f_%s_%s(u32* pq, u32* pr, const u32* pa, %s b) { Aeu<N> q, r, a; ld(a, pa); %s st(pq, q); st(pr, r); }\n' % (nm, tn, tt, body)
    return s

_codes = {}
def codes(c, mod):
    m = c.mods[mod]
    if id(m) not in _codes:
        e = c.engine(mod); o = c.out(e, 'o', 12)
        e.call('@f_codes', [o])
        _codes[id(m)] = tuple(c.read(e, o, 3))
    return _codes[id(m)]

def bitnum(c, n, L, name='n'):
    """n blocks of a number with exactly L significant bits, one symbol per bit"""
    out = []
    for k in range(n):
        p = ZERO
        for i in range(32 * k, min(32 * k + 32, L)):
            p = p + (K(1 << (i - 32 * k)) if i == L - 1 else poly.sym('%s.%d' % (name, i), 0, 1) * (1 << (i - 32 * k)))
        out.append(mk(p, 0, (1 << 32) - 1))
    return out

def widesym(c, n, name, lo, hi):
    """a number in [lo,hi] as one wide symbol, stored as its blocks"""
    return mk(poly.sym(name, lo, hi), lo, hi)

def put_whole(c, e, name, n, v):
    o = e.new_obj(name, 4 * n, 'param', False)
    e.st.mem.wcells(o)[0] = (4 * n, v)
    e.objs[o].const = True
    return Ptr(o, 0)

def case(mod, N, fn, rel, L, kind, w=None, dr=None, zero=()):
    n = N // 32
    def run(c):
        cd = codes(c, mod); c.fresh()
        e = c.engine(mod)
        wide = (1 << N) - 1
        top = (1 << N) - 1 if w is None else min((1 << w) - 1, (1 << N) - 1)
        if rel == 'gt':
            A = [0 if k in zero else x for k, x in enumerate(bitnum(c, n, L))]; nv = mk(compose(A))
            if kind == 'self': dv = nv
            else:
                dl, dh = dr or (1, top)
                dv = dl if dl == dh else mk(poly.sym('d', dl, min(dh, (1 << L) - 2)), dl, min(dh, (1 << L) - 2))
                if isinstance(dv, V): poly.CLASS_FACTS.append(pof(nv) - pof(dv) - 1)
        elif rel == 'eq': dv = nv = mk(poly.sym('n', 1, top), 1, top)
        else:
            tp = wide if kind == 'ri' else top
            dv = mk(poly.sym('d', 1, tp), 1, tp); h = min(tp - 1, top); nv = mk(poly.sym('n', 0, h), 0, h)
            poly.CLASS_FACTS.append(pof(dv) - pof(nv) - 1)
        W = contracts.Whole(c.mods[mod], N, cd); e.contracts = W.C
        e.merge_hook = contracts.below_hook(pof(dv), N // 8)
        pq = c.out(e, 'q', 4 * n); pr = c.out(e, 'r', 4 * n)
        if kind == 'ri': args = [pq, pr, put_whole(c, e, 'a', n, dv), nv]
        else: args = [pq, pr, put_whole(c, e, 'a', n, nv) if rel != 'gt' else c.arr(e, 'a', A, const=True)]
        if kind == 'o': args.append(put_whole(c, e, 'b', n, dv))
        elif kind == 'i': args.append(dv)
        st, _ = c.call(e, fn, args)
        c.ub(e)
        if st != 'ok': return
        euclid(c, e, pq, pr, n, nv, dv)
    return run

def small(mod, N, fn, kind, w):
    n = N // 32
    def run(c):
        cd = codes(c, mod)
        nm = c.name
        for a in range(2, 8):
            for d in range(1, a):
                c.name = '%s n=%d d=%d' % (nm, a, d); c.fresh(); e = c.engine(mod)
                e.contracts = contracts.Whole(c.mods[mod], N, cd).C
                pq = c.out(e, 'q', 4 * n); pr = c.out(e, 'r', 4 * n)
                args = [pq, pr, put_whole(c, e, 'a', n, d if kind == 'ri' else a)]
                if kind == 'ri': args.append(a)
                if kind == 'o': args.append(put_whole(c, e, 'b', n, d))
                elif kind == 'i': args.append(d)
                st, _ = c.call(e, fn, args); c.ub(e)
                if st == 'ok': euclid(c, e, pq, pr, n, a, d)
    return run

def euclid(c, e, pq, pr, n, nv, dv):
    q = e.load_bytes(pq, 4 * n); r = e.load_bytes(pr, 4 * n)
    for x, nm in ((q, 'quotient'), (r, 'remainder')):
        if not isinstance(x, (int, V)):
            c.eq_mod(nm, x, 0); return
    ok = c.eq_mod('quotient*divisor + remainder == dividend', mk(pof(q) * pof(dv) + pof(r)), pof(nv))
    b = mk(e.ge0(pof(dv) - 1 - pof(r)), 0, 1)
    c.eq_mod('remainder < divisor', b, 1)

def masks(n):
    import itertools
    if n <= 5: return [z for r in range(1, n) for z in itertools.combinations(range(n - 1), r)]
    return [(0,), (n - 2,), (n // 2,), tuple(range(1, n - 1)), tuple(range(0, n - 1, 2)), tuple(range(1, n - 1, 2)), tuple(range(n - 1))]

def build(tier):
    mods = {}; units = []
    prec = [96, 128, 256, 512] if tier == 'quick' else [96, 128, 160, 192, 256, 512]
    for N in prec:
        mods['u%d' % N] = (source(N, N == 96 or tier != 'quick'), [])
        n = N // 32; mod = 'u%d' % N
        Ls = list(range(1, N + 1))
        if N > 96 and tier == 'quick': Ls = [L for L in Ls if L % 32 in (0, 1, 17)]
        if N > 160: Ls = [L for L in Ls if L % 32 in (0, 1, 17)]
        wide = N == 512 or N > 128 and tier == 'quick'
        if wide: Ls = [N // 2 + 1, N - 31, N]
        forms = [('f_' + nm, body, 'o', None) for nm, body, _, _ in DEF]
        if wide: forms = forms[:1] + forms[2:3]
        if N == 96 or tier != 'quick': forms += [('f_%s_%s' % (nm, tn), '%s [%s]' % (body, tt), 'i', w) for tn, tt, w in TYS for nm, body in INT] + [('f_%s_%s' % (nm, tn), '%s [%s]' % (body, tt), 'ri', w) for tn, tt, w in TYS for nm, body in REV]
        for fn, body, kind, w in forms:
            for rel in ('lt', 'eq'): units.append(Unit('Aeu<%d> {%s} n%sd' % (N, body, '<' if rel == 'lt' else '=='), case(mod, N, fn, rel, None, kind, w), 200))
            ls = [L for L in Ls if L > 3 and (kind != 'ri' or L <= w)]; units.append(Unit('Aeu<%d> {%s} n>d, n below 8' % (N, body), small(mod, N, fn, kind, w), 200))
            if fn not in ('f_div4', 'f_ops', 'f_opsi_u64') and tier == 'quick': ls = [L for L in ls if L % 32 in (0, 1, 2, 13)]
            for L in ls: units.append(Unit('Aeu<%d> {%s} n>d, n of %d bits' % (N, body, L), case(mod, N, fn, 'gt', L, kind, w), 200))
            if fn in ('f_div4', 'f_ops', 'f_ass', 'f_opsi_u64', 'f_assi_u64') and not wide:
                W = min(w or N, N)
                ranges = [(1 << (32 * k), (1 << (32 * k + 32)) - 1) for k in range(W // 32)]
                cs = [1 << k for k in range(0, W, 1 if tier != 'quick' or N == 96 else 13)] + [(1 << k) + 1 for k in (16, 32, 63, 64)]
                for dl, dh in ranges + [(d, d) for d in sorted(set(cs)) if d < 1 << W]:
                    b = dl.bit_length()
                    sel = [L for L in ls if b < L <= N] if dl < dh else [L for L in (b + 1, b + 9, N) if b < L <= N]
                    if dl < dh: sel = [L for L in sel if L % 32 in (0, 1, 2, 13)]
                    if dl == dh and N > 96 and tier == 'quick': sel = sel[-1:]
                    for L in sorted(set(sel)): units.append(Unit('Aeu<%d> {%s} n>d, n of %d bits, d in [%s,%s]' % (N, body, L, hex(dl), hex(dh)), case(mod, N, fn, 'gt', L, kind, w, (dl, dh)), 200))
        for fn, body, kind, w in forms[:1] + forms[2:3]:
            for L in (N, N - 31) if N <= 160 else (N,):
                for zero in masks(n):
                    units.append(Unit('Aeu<%d> {%s} n>d, n of %d bits, blocks %s zero, d == 1' % (N, body, L, list(zero)), case(mod, N, fn, 'gt', L, kind, w, (1, 1), zero), 200))
        for nm, body in SELF:
            units.append(Unit('Aeu<%d> {%s}' % (N, body), case(mod, N, 'f_' + nm, 'eq', None, 'self'), 200))
    units.sort(key=lambda u: 0 if 'bits' in u.name else 1)
    lemmas(mods, units, [('uadd', r'^Aeu<96>', '96'), ('ushift', r'^Aeu<96> \S+<unsigned int>', '96'), ('ucmp', r'Aeu<96> vs (Aeu<96>|unsigned int|itself)', '96_96'), ('uacc', r'^Aeu<96>', '96')])
    return mods, units
