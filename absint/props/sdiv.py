"""Signed division: quotient truncated toward zero, remainder with the dividend's sign, every form."""
from props.smul import *
import contracts
from props.udiv import codes, put_whole
RULE = ('operands partitioned by sign and magnitude relation (|n|<|d|, equal, greater), built-in divisors by sign, range and most negative value; Aeu::divide replaced by its Euclidean contract (re-checked here as a callee lemma); '
        'obligations: |q| == floor(|n|/|d|), |r| == |n| - |q||d|, sign of q == sign n * sign d, sign of r == sign n, zero when the magnitude is zero')
BIN = [('ops', 'q = a / b; r = a % b;'), ('ass', 'q = a; r = a; Aesi<N>& x = (q /= b); if (&x != &q) __builtin_trap(); Aesi<N>& y = (r %= b); if (&y != &r) __builtin_trap();'), ('div', 'Aesi<N>::divide(a, b, q, r);')]
SELF = [('self', 'q = a / a; r = a % a;'), ('selfass', 'q = a; q /= q; r = a; r %= r;'), ('selfdiv', 'Aesi<N>::divide(a, a, q, r);')]
INTG = [('opsi', 'q = a / t; r = a % t;'), ('assi', 'q = a; r = a; Aesi<N>& x = (q /= t); if (&x != &q) __builtin_trap(); Aesi<N>& y = (r %= t); if (&y != &r) __builtin_trap();')]
REVG = [('revi', 'q = t / a; r = t % a;')]
SIG = 'u32* pq, int* sq, u32* pr, int* sr, const u32* pa'

def source(N):
    s = HDR + '\nstatic constexpr std::size_t N = %d;\nextern "C" void f_codes(u32* o) { Aeu<N> a = 1u, b = 2u; o[0] = (u32)(unsigned char)a.compareTo(b); o[1] = (u32)(unsigned char)a.compareTo(a); o[2] = (u32)(unsigned char)b.compareTo(a); }\n' % N
    D = 'Aesi<N> q = 0, r = 0, a = mks<N>(pa, %d)'; E = 'sts(pq, sq, q); sts(pr, sr, r);'
    for sa in (1, -1, 0):
        for nm, body in SELF:
            if sa: s += 'extern "C" void f_%s_%s(%s) { %s; %s %s }\n' % (nm, SG[sa], SIG, D % sa, body, E)
        for sb in (1, -1, 0):
            for nm, body in BIN: s += 'extern "C" void f_%s_%s_%s(%s, const u32* pb) { %s, b = mks<N>(pb, %d); %s %s }\n' % (nm, SG[sa], SG[sb], SIG, D % sa, sb, body, E)
        for tn, tt, w, sd in TY:
            for nm, body in INTG + REVG: s += 'extern "C" void f_%s_%s_%s(%s, %s t) { %s; %s %s }\n' % (nm, tn, SG[sa], SIG, tt, D % sa, body, E)
    return s

def case(mod, N, fn, sa, sb, rel, cl=None, w=None, self=False, canon=False):
    n = N // 32; M = (1 << N) - 1
    def run(c):
        cd = codes(c, mod); c.fresh()
        e = c.engine(mod)
        args = []
        if cl is not None:
            t, D, s2 = int_value(c, w, cl); dl, dh = cl[2], cl[3]
        else:
            s2 = sb; dl, dh = 1, M
        if sa == 0: nv = 0
        elif s2 == 0:
            if rel != 'gt': return
            nv = mk(poly.sym('n', 1, M), 1, M)
        elif rel == 'lt':
            if dh < 2: return
            nv = mk(poly.sym('n', 1, min(M, dh - 1)), 1, min(M, dh - 1))
        elif rel == 'eq': nv = mk(poly.sym('n', dl, dh), dl, dh)
        else:
            if dl >= M: return
            nv = mk(poly.sym('n', max(2, dl + 1), M), max(2, dl + 1), M)
        if self: dv = nv; s2 = sa
        elif s2 == 0: dv = 0; t = 0
        elif cl is None:
            dv = nv if rel == 'eq' else mk(poly.sym('d', 1 if rel == 'gt' or not sa else 2, M - 1 if rel == 'gt' else M))
        else:
            dv = mk(D) if rel != 'eq' else nv
            if rel == 'eq': t = nv if s2 > 0 else mk(K(1 << w) - pof(nv))
        if sa and s2 and rel == 'gt' and not (isinstance(dv, int) and isinstance(nv, int)): poly.CLASS_FACTS.append(pof(nv) - pof(dv) - 1)
        if sa and s2 and rel == 'lt': poly.CLASS_FACTS.append(pof(dv) - pof(nv) - 1)
        W = contracts.Whole(c.mods[mod], N, cd, skip=()); e.contracts = W.C
        outs = [c.out(e, 'q', 4 * n), c.out(e, 'sq', 4), c.out(e, 'r', 4 * n), c.out(e, 'sr', 4)]
        args = outs + [put_whole(c, e, 'a', n, nv)]
        if cl is not None: args.append(t)
        elif not self: args.append(put_whole(c, e, 'b', n, dv))
        st, _ = c.call(e, fn, args)
        c.ub(e)
        if st != 'ok': return
        check_qr(c, e, outs, n, nv, dv, sa, s2, rel, canon)
    return run

def rcase(mod, N, fn, sd, rel, cl, w, canon=False):
    """built-in dividend of class cl, Aesi divisor of sign sd"""
    n = N // 32; M = (1 << N) - 1
    def run(c):
        cd = codes(c, mod); c.fresh(); e = c.engine(mod)
        t, D, s2 = int_value(c, w, cl); lo, hi = cl[2], cl[3]
        nv = mk(D, lo, hi) if s2 else 0
        if rel == 'lt': dv = mk(poly.sym('d', lo + 1, M), lo + 1, M)
        elif rel == 'eq': dv = nv
        else:
            if hi < 2: return
            dv = mk(poly.sym('d', 1, hi - 1), 1, hi - 1)
        if rel != 'eq' and s2: poly.CLASS_FACTS.append((pof(dv) - pof(nv) if rel == 'lt' else pof(nv) - pof(dv)) - 1)
        W = contracts.Whole(c.mods[mod], N, cd, skip=()); e.contracts = W.C
        outs = [c.out(e, 'q', 4 * n), c.out(e, 'sq', 4), c.out(e, 'r', 4 * n), c.out(e, 'sr', 4)]
        st, _ = c.call(e, fn, outs + [put_whole(c, e, 'a', n, dv), t])
        c.ub(e)
        if st == 'ok': check_qr(c, e, outs, n, nv, dv, s2, sd, rel, canon)
    return run

def check_qr(c, e, outs, n, nv, dv, sa, s2, rel, canon):
    if s2 == 0: Q = R = ZERO
    elif sa == 0 or rel == 'lt': Q, R = ZERO, pof(nv)
    elif rel == 'eq': Q, R = ONE, ZERO
    else:
        Q = contracts.fdiv(e, nv, dv) if isinstance(dv, V) else poly.floor_div(pof(nv), dv, lo_(nv), hi_(nv))
        R = pof(nv) - Q * pof(dv)
    for nm, po, sg, S, sign in (('quotient', outs[0], outs[1], Q, sa * s2), ('remainder', outs[2], outs[3], R, sa)):
        num = e.load_bytes(po, 4 * n); g = e.load_bytes(sg, 4)
        if not canon: c.eq_mod(nm + ' magnitude', num, S)
        if not isinstance(num, (int, V)): c.note(nm, 'refuted' if canon else 'undecided', 'uninitialised'); continue
        z = e.eqz(pof(num), lo_(num), hi_(num))
        if not canon: c.eq_mod(nm + ' sign', g, sgn_spec(sign, z))
        else:
            zg = e.eqz(pof(g), lo_(g), hi_(g))
            c.eq_mod(nm + ' isZero() exactly when the magnitude is zero', mk(zg), z)
            bad = e.ge0(pof(g) - 2, lo_(g) - 2, hi_(g) - 2) - e.eqz(pof(g) - 0xffffffff, lo_(g) - 0xffffffff, hi_(g) - 0xffffffff)
            c.eq_mod(nm + ' exactly one of isZero/isPositive/isNegative', mk(bad), ZERO)


RELS = {'lt': '|n|<|d|', 'eq': '|n|==|d|', 'gt': '|n|>|d|'}
def build(tier, canon=False):
    mods = {}; units = []
    for N in ([96, 128, 256, 512] if tier == 'quick' else [96, 128, 160, 192, 224, 256, 512]):
        if canon and N > 96: continue
        mod = 'd%d' % N; mods[mod] = (source(N), [])
        for sa in (1, -1, 0):
            rels = ('lt', 'eq', 'gt') if sa else ('lt',)
            if sa:
                for nm, body in SELF: units.append(Unit('Aesi<%d> %s n {%s}' % (N, SG[sa], body), case(mod, N, 'f_%s_%s' % (nm, SG[sa]), sa, sa, 'eq', self=True, canon=canon), 60))
            for sb in (1, -1) + ((0,) if canon else ()):
                for nm, body in BIN:
                    for rel in rels: units.append(Unit('Aesi<%d> %s n, %s d, %s {%s}' % (N, SG[sa], SG[sb], RELS[rel] if sa else 'n zero', body), case(mod, N, 'f_%s_%s_%s' % (nm, SG[sa], SG[sb]), sa, sb, rel, canon=canon), 60))
            for tn, tt, w, sd in TY:
                for nm, body in INTG:
                    for cl in int_classes(w, sd):
                        if cl[1] == 0 and not canon: continue
                        for rel in rels:
                            units.append(Unit('Aesi<%d> %s n, %s t %s, %s {%s}' % (N, SG[sa], tt, cl[0], RELS[rel] if sa else 'n zero', body), case(mod, N, 'f_%s_%s_%s' % (nm, tn, SG[sa]), sa, None, rel, cl, w, canon=canon), 60))
            for tn, tt, w, sd in TY if sa else ():
                for nm, body in REVG:
                    for cl in int_classes(w, sd):
                        for rel in ('lt', 'eq', 'gt') if cl[1] else ('lt',):
                            units.append(Unit('Aesi<%d> %s d, %s t %s, %s {%s}' % (N, SG[sa], tt, cl[0], RELS[rel], body), rcase(mod, N, 'f_%s_%s_%s' % (nm, tn, SG[sa]), sa, rel, cl, w, canon=canon), 60))
    if not canon: lemmas(mods, units, [('udiv', r'^Aeu<96> \{Aeu<N>::divide\(a, b, q, r\);\} n', 'u96$')])
    return mods, units
