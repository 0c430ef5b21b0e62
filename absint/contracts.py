"""Whole-number contracts: callee summaries used when analysing division, number theory and text
conversion.  Every contract stands for a guarantee that is itself discharged by the analysis of the
callee's body (lemma units of the same check), so a wrong callee is still reported."""
import re, poly
from poly import K, ZERO, ONE, Poly
from engine import *

class Whole:
    def __init__(w, m, N, cmp_codes, skip=('divide',), zero_ok=False):
        w.zero_ok = zero_ok
        """m: IR module, N: precision, cmp_codes: (less, equal, greater) values of Comparison"""
        w.m = m; w.N = N; w.B = N // 8; w.M = 1 << N; w.codes = cmp_codes; w.C = {}; w.skip = set(skip)
        A = r'Aeu<%dul>' % N
        T = r'(unsigned (?:char|short|int|long|long long)|bool)'
        pats = [
            ('compare', r'.*\bComparison %s::compareTo<%dul>\(%s const&\) const' % (A, N, A), w.cmp_obj),
            ('compare', r'.*\bComparison %s::compareTo<%s>\(%s\) const' % (A, T, T), w.cmp_int),
            ('eqi', r'bool operator==<%s>\(%s const&, %s\)' % (T, A, T), w.eq_int),
            ('shl', r'%s& operator<<=<%s>\(%s&, %s\)' % (A, T, A, T), w.shl),
            ('shr', r'%s& operator>>=<%s>\(%s&, %s\)' % (A, T, A, T), w.shr),
            ('setBit', r'%s::setBit\(unsigned long, bool\)' % A, w.setbit),
            ('getBit', r'%s::getBit\(unsigned long\) const' % A, w.getbit),
            ('add', r'operator\+=\(%s&, %s const&\)' % (A, A), w.add),
            ('sub', r'operator-=\(%s&, %s const&\)' % (A, A), w.sub),
            ('mul', r'operator\*=\(%s&, %s const&\)' % (A, A), w.mul),
            ('muli', r'%s& operator\*=<%s>\(%s&, %s\)' % (A, T, A, T), w.muli),
            ('inc', r'%s::operator\+\+\(\)' % A, w.inc),
            ('dec', r'%s::operator--\(\)' % A, w.dec),
            ('divide', r'%s::divide\(%s const&, %s const&, %s&, %s&\)' % (A, A, A, A, A), divide_contract(w)),
            ('isZero', r'%s::isZero\(\) const' % A, w.iszero),
        ]
        for f in m.funcs.values():
            if f.decl: continue
            for nm, p, h in pats:
                if nm not in w.skip and re.fullmatch(p, f.dem): w.C[f.name] = h

    def get(w, e, p):
        v = e.load_whole(p, w.B)
        if isinstance(v, PU): v = e.usepu(v)
        if v is UNDEF:
            e.event('use of uninitialised value', ONE); raise Dead()
        if not isinstance(v, (int, V)): raise Undecided('whole number')
        return v
    def put(w, e, p, v): e.store_whole(p, w.B, v)
    def red(w, e, p, lo, hi):
        """p mod 2^N as a value; lo..hi interval of p"""
        if lo >= 0 and hi < w.M: return mk(p, lo, hi)
        if lo >= 0:
            z = e.ge0(p - w.M, lo - w.M, hi - w.M)
            if not z.d: return mk(p, lo, min(hi, w.M - 1))
        if hi < w.M:
            z = e.ge0(p, lo, hi)
            if z == ONE: return mk(p, 0, hi)
        q = floor_div(p, w.M, lo, hi)
        return mk(p - q * w.M, 0, w.M - 1)

    def cases(w, e, a, b):
        d = pof(a) - pof(b); dl = lo_(a) - hi_(b); dh = hi_(a) - lo_(b)
        g0 = e.ge0(d, dl, dh); g1 = e.ge0(d - 1, dl - 1, dh - 1)
        L, E_, G = w.codes
        out = {}
        for c, z in ((L, ONE - g0), (E_, g0 - g1), (G, g1)):
            z = e.apply_conds(z)
            if z.d: out[c] = z
        return from_cases(out)
    def cmp_obj(w, e, args, f): return w.cases(e, w.get(e, args[0]), w.get(e, args[1]))
    def cmp_int(w, e, args, f): return w.cases(e, w.get(e, args[0]), args[1])
    def eq_int(w, e, args, f):
        a = w.get(e, args[0]); b = args[1]
        if isinstance(b, PU): b = e.usepu(b)
        if isinstance(a, int) and isinstance(b, int): return int(a == b)
        z = e.apply_conds(e.eqz(pof(a) - pof(b), lo_(a) - hi_(b), hi_(a) - lo_(b)))
        return mk(z, 0, 1)
    def shl(w, e, args, f):
        s = args[1]
        if not isinstance(s, int): raise Undecided('symbolic shift')
        if s < w.N:
            v = w.get(e, args[0]); w.put(e, args[0], w.red(e, pof(v) * (1 << s), lo_(v) << s, hi_(v) << s))
        return args[0]
    def shr(w, e, args, f):
        s = args[1]
        if not isinstance(s, int): raise Undecided('symbolic shift')
        if s < w.N:
            v = w.get(e, args[0]); w.put(e, args[0], e.bits(v, s, w.N) if s else v)
        return args[0]
    def inrange(w, e, i):
        """without argument checks the accessors require an index below the precision"""
        e.obl += 1
        if i >= w.N and '-DAESI_UNSAFE' in e.m.flags: e.event('bit index past the end in unsafe mode', ONE, 'index %d of %d bits' % (i, w.N))

    def setbit(w, e, args, f):
        p, i, b = args
        if not isinstance(i, int): raise Undecided('symbolic bit index')
        w.inrange(e, i)
        if i >= w.N: return None
        v = w.get(e, p); old = e.bits(v, i, i + 1)
        if isinstance(b, PU): b = e.usepu(b)
        if same(old, b): w.put(e, p, v); return None
        w.put(e, p, mk(pof(v) + (pof(b) - pof(old)) * (1 << i), max(0, lo_(v) - (hi_(old) << i) + (lo_(b) << i)), min(w.M - 1, hi_(v) - (lo_(old) << i) + (hi_(b) << i))))
        return None
    def getbit(w, e, args, f):
        p, i = args
        if not isinstance(i, int): raise Undecided('symbolic bit index')
        w.inrange(e, i)
        if i >= w.N: return 0
        return e.bits(w.get(e, p), i, i + 1)
    def bin(w, e, args, sg):
        a = w.get(e, args[0]); b = w.get(e, args[1])
        if sg > 0: r = w.red(e, pof(a) + pof(b), lo_(a) + lo_(b), hi_(a) + hi_(b))
        else: r = w.red(e, pof(a) - pof(b), lo_(a) - hi_(b), hi_(a) - lo_(b))
        w.put(e, args[0], r); return args[0]
    def add(w, e, args, f): return w.bin(e, args, 1)
    def sub(w, e, args, f): return w.bin(e, args, -1)
    def mul(w, e, args, f):
        a = w.get(e, args[0]); b = w.get(e, args[1])
        w.put(e, args[0], w.red(e, pof(a) * pof(b), lo_(a) * lo_(b), hi_(a) * hi_(b))); return args[0]
    def muli(w, e, args, f):
        a = w.get(e, args[0]); b = args[1]
        w.put(e, args[0], w.red(e, pof(a) * pof(b), lo_(a) * lo_(b), hi_(a) * hi_(b))); return args[0]
    def inc(w, e, args, f):
        a = w.get(e, args[0]); w.put(e, args[0], w.red(e, pof(a) + 1, lo_(a) + 1, hi_(a) + 1)); return args[0]
    def dec(w, e, args, f):
        a = w.get(e, args[0]); w.put(e, args[0], w.red(e, pof(a) - 1, lo_(a) - 1, hi_(a) - 1)); return args[0]
    def iszero(w, e, args, f):
        a = w.get(e, args[0])
        if isinstance(a, int): return int(a == 0)
        return mk(e.apply_conds(e.eqz(a.p, a.lo, a.hi)), 0, 1)

def below_hook(limit_poly, size):
    """template invariant for joins: a cell stays below the divisor"""
    added = set()
    def hook(e, v, x, y, sz, s1, s2, st, c):
        if sz != size or not isinstance(v, V): return None
        ok = True
        for arm, s in ((x, s1), (y, s2)):
            if not poly.prove_nonneg(limit_poly - 1 - pof(arm), s.facts + poly.CLASS_FACTS): return None
        fs = [f for f in st.facts if f not in added]
        nf = limit_poly - 1 - v.p
        added.add(nf)
        st.facts = fs + [nf]
        return None
    return hook

def divide_contract(W):
    """divide(number, divisor, quotient&, remainder&): quotient/remainder as floor(n/d), n - d*floor(n/d)"""
    def h(e, args, f):
        n = W.get(e, args[0]); d = W.get(e, args[1])
        def zero_div(n):
            if not W.zero_ok: e.event('division by a zero number', ONE); raise Dead()
            if isinstance(n, int) and n == 0: return 1, 0
            return mk(poly.opaque('quotient by zero', 0, W.M - 1), 0, W.M - 1), n
        if isinstance(d, int) and isinstance(n, int):
            if d == 0: q, r = zero_div(n)
            else: q, r = n // d, n % d
        elif isinstance(d, int):
            if d == 0: q, r = zero_div(n)
            else:
              p = floor_div(n.p, d, n.lo, n.hi); q = mk(p, n.lo // d, n.hi // d); r = mk(n.p - pof(q) * d, 0, min(d - 1, n.hi))
        else:
            if d.lo <= 0:
                z = e.ge0(d.p - 1, d.lo - 1, d.hi - 1)
                if z != ONE:
                    e.event('division by a zero number', ONE - z)
                    if not z.d: raise Dead()
                    e.assume(z)
            p = fdiv(e, n, d)
            q = mk(p, lo_(n) // d.hi, hi_(n) // max(1, d.lo)); r = mk(pof(n) - pof(q) * d.p, 0, min(d.hi - 1, hi_(n)))
            if isinstance(q, V) or isinstance(r, V):
                e.st.facts = e.st.facts + [d.p - 1 - pof(r), pof(r)]
        W.put(e, args[2], q); W.put(e, args[3], r)
        return None
    return h

def fdiv(e, n, d):
    N_ = pof(n)
    if not N_.d: return ZERO
    # n < d: quotient zero
    z = e.ge0(N_ - d.p, lo_(n) - d.hi, hi_(n) - d.lo)
    if not z.d: return ZERO
    if N_ == d.p: return ONE
    if len(d.p.d) == 1:
        (dm, dc), = d.p.d.items()
        if len(N_.d) == 1:
            (nm, nc), = N_.d.items()
            if nm == dm and dc > 0: return K(nc // dc)
        if dc == 1 and len(dm) == 1 and poly.ATOMS[dm[0]].lo >= 1 and all(dm[0] in m for m in N_.d):
            out = {}
            for m, c in N_.d.items():
                l = list(m); l.remove(dm[0]); out[tuple(l)] = c
            return Poly(out)
    return poly.floor_poly(N_, d.p, max(lo_(n) // d.hi, 1 if z == ONE else 0), hi_(n) // max(1, d.lo))
