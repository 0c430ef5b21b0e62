"""Square root and power of two."""
from props.util import *
from props.sutil import check_signed
import contracts, loops, math
from engine import same
from props.udiv import codes, put_whole
RULE = ('squareRoot: n == r*r + t with 0 <= t <= 2r by exact bit length; a loop cell is shown to stay in [r, start value] (assumed r + k at the loop head, k >= 1 and k == 0 apart, re-established after one body), '
        'k >= 1 never leaves the loop and k == 0 leaves it with r; a failed induction is confirmed or dropped by constant propagation on boundary values of the class; power2: every exponent below N as its own class, all others as one')

def source(N):
    s = HDR + '\nstatic constexpr std::size_t N = %d;\nextern "C" void f_codes(u32* o) { Aeu<N> a = 1u, b = 2u; o[0] = (u32)(unsigned char)a.compareTo(b); o[1] = (u32)(unsigned char)a.compareTo(a); o[2] = (u32)(unsigned char)b.compareTo(a); }\n' % N
    return s + '''extern "C" void f_sqrt(u32* po, const u32* pa) { Aeu<N> a; ld(a, pa); auto r = a.squareRoot(); st(po, r); }
extern "C" void f_ssqrt(u32* po, int* ps, const u32* pa, int sg) { Aesi<N> a = sg == 0 ? mks<N>(pa, 0) : sg > 0 ? mks<N>(pa, 1) : mks<N>(pa, -1); auto r = a.squareRoot(); sts(po, ps, r); }
extern "C" void f_pow2(u32* po, u64 k) { auto r = Aeu<N>::power2(k); st(po, r); }
extern "C" void f_spow2(u32* po, int* ps, u64 k) { auto r = Aesi<N>::power2(k); sts(po, ps, r); }
'''

class Above:
    def __init__(t, N, r, mode, skip): t.N = N; t.r = r; t.mode = mode; t.skip = skip; t.sizes = {N // 8}; t.cell = None; t.bad = False; t.k = None; t.dec = True
    def wants(t, e, f, h): return True
    def start(t, e, f, a):
        if any(m[0] != 'mem' for m in a.M): raise Undecided('loop-carried register')
        t.cand = []
        for m in sorted(a.M):
            v = a.entry[m]
            if m[3] == t.N // 8 and isinstance(v, (int, V)) and poly.prove_nonneg(pof(v) - pof(t.r), e.st.facts + poly.CLASS_FACTS): t.cand.append(m)
        if t.skip >= len(t.cand): raise Undecided('no loop cell at least the root')
        t.cell = t.cand[t.skip]; t.Y = hi_(a.entry[t.cell])
        for i, m in enumerate(sorted(a.M)): a.vals[m] = mk(poly.opaque('cell%d' % i, 0, (1 << 8 * m[3]) - 1, ('sq', m)), 0, (1 << 8 * m[3]) - 1)
        if t.mode == 'at': t.k = ZERO; a.vals[t.cell] = t.r
        else:
            kh = t.Y - lo_(t.r)
            if kh < 1: raise Dead()
            t.k = poly.sym('k', 1, kh); poly.CLASS_FACTS.append(K(t.Y) - pof(t.r) - t.k)
            a.vals[t.cell] = mk(pof(t.r) + t.k, lo_(t.r) + 1, t.Y)
        return True
    def back(t, e, f, a):
        try: v = e.load_bytes(Ptr(t.cell[1], t.cell[2]), t.cell[3])
        except Undecided: v = UNDEF
        if isinstance(v, PU): v = UNDEF
        fs = e.st.facts + poly.CLASS_FACTS
        if not isinstance(v, (int, V)) or not poly.prove_nonneg(pof(v) - pof(t.r), fs) or not poly.prove_nonneg(K(t.Y) - pof(v), fs): t.bad = True; return
        if t.mode == 'at' or not poly.prove_nonneg(pof(t.r) + t.k - 1 - pof(v), fs): t.dec = False

def sqrt_divide(W, t, n, r, tt, old):
    def h(e, args, f):
        a = W.get(e, args[0]); d = W.get(e, args[1])
        if t is None or t.k is None or pof(a) != pof(n) or pof(d) - pof(r) != t.k: return old(e, args, f)
        k = t.k
        if k.d:
            kh = poly.bounds(k)[1]
            s = poly.floor_poly(k * k + tt, pof(d), 0, kh)        # n < (r+1)^2 and d >= r+1 give n/d <= r, so s <= k
            e.st.facts = e.st.facts + [k - s, k - 1 - poly.floor_div(s, 2, 0, kh)]
        else:
            s = poly.floor_poly(tt, pof(d), 0, 2)
        q = mk(pof(r) - k + s, 0, hi_(r) + (0 if k.d else 2))
        W.put(e, args[2], q); W.put(e, args[3], mk(pof(a) - pof(q) * pof(d), 0, hi_(d) - 1))
        return None
    return h

def setup(c, mod, N, real_divide=False):
    cd = codes(c, mod); c.fresh(); e = c.engine(mod)
    W = contracts.Whole(c.mods[mod], N, cd, skip=('divide',) if real_divide else (), zero_ok=True)
    if real_divide: return e, W, None
    e.contracts = dict(W.C)
    dv = [f.name for f in c.mods[mod].funcs.values() if not f.decl and re.fullmatch(r'Aeu<%d>::divide\(.*&, .*&, .*&, .*&\)'.replace('%d', '%dul' % N), f.dem)]
    bc = [f.name for f in c.mods[mod].funcs.values() if not f.decl and f.dem == 'Aeu<%dul>::bitCount() const' % N]
    def bitcount(e, args, f):
        v = W.get(e, args[0])
        if lo_(v).bit_length() != hi_(v).bit_length(): raise Undecided('bit count')
        return lo_(v).bit_length()
    for x in bc: e.contracts[x] = bitcount
    return e, W, dv

import re
def call(c, e, fn, N, n, sg):
    po = c.out(e, 'o', N // 8)
    if fn == 'f_sqrt': st, _ = c.call(e, fn, [po, put_whole(c, e, 'a', N // 32, n)]); ps = None
    else:
        ps = c.out(e, 's', 4)
        st, _ = c.call(e, fn, [po, ps, put_whole(c, e, 'a', N // 32, n), sg & 0xffffffff])
    return st, po, ps

def root(mod, N, fn, b):
    def run(c):
        lo, hi = 1 << (b - 1), (1 << b) - 1
        rl, rh = math.isqrt(lo), math.isqrt(hi)
        def operand():
            r = mk(poly.sym('r', rl, rh), rl, rh); tt = poly.sym('t', 0, 2 * rh)
            n = mk(pof(r) * pof(r) + tt, lo, hi)
            poly.CLASS_FACTS += [pof(r) * 2 - tt, pof(n) - lo, K(hi) - pof(n)]
            return r, tt, n
        proved = False; why = ''; whys = []
        for skip in range(4):
            ok = 0
            for mode in ('above', 'at'):
                poly.reset()
                e, W, dv = setup(c, mod, N)
                r, tt, n = operand()
                t = Above(N, r, mode, skip)
                for x in dv: e.contracts[x] = sqrt_divide(W, t, n, r, tt, e.contracts[x])
                L = loops.Induct(t, r'::squareRoot\('); e.loop_hook = L
                saved = len(c.obls)
                st, po, ps = call(c, e, fn, N, n, 1)
                if st == 'undecided' or e.events:
                    why = c.obls[-1].detail if len(c.obls) > saved else str(e.events[0].kind)
                    del c.obls[saved:]; c.collect(e); break
                if not t.dec and c.only == 'loop': why = 'loop cell does not decrease strictly'; c.collect(e); break
                if t.bad: why = 'cell does not stay in [root, start]'; c.collect(e); break
                if mode == 'above' and st == 'dead': c.collect(e); ok += 1; continue
                if st == 'dead': why = 'loop is not left at the root'; c.collect(e); break
                v = e.load_bytes(po, N // 8)
                if isinstance(v, PU): v = v.v
                if not isinstance(v, (int, V)) or not (same(v, r) or (poly.prove_nonneg(pof(v) - pof(r), e.st.facts + poly.CLASS_FACTS) and poly.prove_nonneg(pof(r) - pof(v), e.st.facts + poly.CLASS_FACTS))):
                    why = 'result %s is not the root' % (poly.show(pof(v), 6) if isinstance(v, (int, V)) else v); c.collect(e); break
                if ps is not None and e.load_bytes(ps, 4) != 1: why = 'sign'; c.collect(e); break
                c.collect(e); ok += 1
            if ok == 2: proved = True; break
            whys.append(why)
            if why.startswith('no loop cell'): break
        if proved:
            c.note('result is the floor square root', 'proved'); c.note('loop is left at the root and decreases strictly above it', 'proved', kind='loop'); c.note('no undefined behaviour on any path', 'proved', kind='ub'); return
        why = '; '.join(whys)
        # confirm by constant propagation on boundary values
        cand = set()
        for r in (rl, rl + 1, (rl + rh) // 2, rh - 1, rh):
            for n in (r * r - 1, r * r, r * r + 1, r * r + r, r * r + 2 * r):
                if lo <= n <= hi: cand.add(n)
        for n in sorted(cand | {lo, hi}):
            poly.reset(); e, W, dv = setup(c, mod, N)
            saved = len(c.obls)
            st, po, ps = call(c, e, fn, N, n, 1)
            if c.only == 'loop' and any(ev.kind == 'loop bound' for ev in e.events):
                c.note('loop terminates', 'refuted', 'squareRoot(%s): %s' % (hex(n), [ev.detail for ev in e.events if ev.kind == 'loop bound'][0]), e.events[0].where, kind='loop'); return
            if c.only != 'loop' and e.events and st != 'undecided':
                c.ub(e, 'squareRoot(%s)' % hex(n)); return
            if st != 'ok': del c.obls[saved:]; continue
            v = e.load_bytes(po, N // 8)
            if isinstance(v, int) and v != math.isqrt(n) or (ps is not None and e.load_bytes(ps, 4) != 1):
                c.note('result is the floor square root', 'refuted', 'squareRoot(%s) computes %s, the root is %s (induction: %s)' % (hex(n), v if not isinstance(v, int) else hex(v), hex(math.isqrt(n)), why), env='n=%s' % hex(n)); return
        c.note('result is the floor square root', 'undecided', why, kind=c.only or 'value')
    return run

def zero(mod, N, fn, sg, val=None):
    def run(c):
        e, W, _ = setup(c, mod, N, True)
        n = 0 if sg == 0 or fn == 'f_sqrt' else None
        po = c.out(e, 'o', N // 8)
        if fn == 'f_sqrt':
            st, _ = c.call(e, fn, [po, c.arr(e, 'a', [0] * (N // 32), const=True)]); ps = None
        else:
            ps = c.out(e, 's', 4); bl = [0] * (N // 32) if sg == 0 else [val >> 32 * i & 0xffffffff for i in range(N // 32)] if val else [c.sym('a%d' % i) for i in range(N // 32 - 1)] + [c.sym('a%d' % (N // 32 - 1), 1)]
            st, _ = c.call(e, fn, [po, ps, c.arr(e, 'a', bl, const=True), sg & 0xffffffff])
        c.ub(e)
        if st != 'ok': return
        c.eq_mod('root is zero', number(c.read(e, po, N // 32)), ZERO)
        if ps is not None: c.eq_mod('sign is zero', e.load_bytes(ps, 4), ZERO)
    return run

def pow2(mod, N, fn, k):
    n = N // 32
    def run(c):
        c.fresh(); e = c.engine(mod); po = c.out(e, 'o', 4 * n)
        kv = k if k is not None else mk(poly.sym('k', N, (1 << 64) - 1))
        if fn == 'f_pow2': st, _ = c.call(e, fn, [po, kv]); ps = None
        else: ps = c.out(e, 's', 4); st, _ = c.call(e, fn, [po, ps, kv])
        c.ub(e)
        if st != 'ok': return
        c.eq_mod('power2', number(c.read(e, po, n)), K(1 << k) if k is not None else ZERO)
        if ps is not None: c.eq_mod('sign', e.load_bytes(ps, 4), ONE if k is not None else ZERO)
    return run

def build(tier):
    mods = {}; units = []
    for N in ([96, 128, 160, 256] if tier == 'quick' else [96, 128, 160, 192, 256, 288, 512]):
        mod = 'r%d' % N; mods[mod] = (source(N), [])
        for fn, nm in (('f_sqrt', 'Aeu'), ('f_ssqrt', 'Aesi')):
            for b in range(1, N + 1): units.append(Unit('%s<%d>::squareRoot() n of %d bits:' % (nm, N, b), root(mod, N, fn, b), 60))
            for sg in ((0,) if fn == 'f_sqrt' else (0, -1)): units.append(Unit('%s<%d>::squareRoot() of %s:' % (nm, N, 'zero' if sg == 0 else 'negative'), zero(mod, N, fn, sg), 60))
        for v in (1, 2, 4, 16, 1 << 32, (1 << 64) - 1, 1 << (N - 2), (1 << N) - 1): units.append(Unit('Aesi<%d>::squareRoot() of %d:' % (N, -v), zero(mod, N, 'f_ssqrt', -1, v), 60))
        for fn, nm in (('f_pow2', 'Aeu'), ('f_spow2', 'Aesi')):
            for k in list(range(N)) + [None]: units.append(Unit('%s<%d>::power2(%s):' % (nm, N, k if k is not None else 'N and above'), pow2(mod, N, fn, k), 30))
    lemmas(mods, units, [('udiv', r'^Aeu<96> \{Aeu<N>::divide\(a, b, q, r\);\} n', 'u96$'), ('ucount', r'^Aeu<(96|256)>', '.')])
    return mods, units
