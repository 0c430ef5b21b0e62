"""Signed numbers: sign and magnitude classes."""
from props.util import *

def mag_classes(n): return list(range(1, n + 1))

def mag_pairs(n, m):
    """exhaustive partition of pairs of non-zero magnitudes: (label, ta, tb, d)  d=None: lengths differ; 'eq'; or (rel, block)"""
    out = []
    for ta in range(1, n + 1):
        for tb in range(1, m + 1):
            if ta != tb: out.append(('lengths %d,%d' % (ta, tb), ta, tb, None))
            else:
                out.append(('equal magnitudes of %d blocks' % ta, ta, tb, 'eq'))
                for d in range(ta):
                    out.append(('|a|>|b| at block %d of %d' % (d, ta), ta, tb, ('gt', d)))
                    out.append(('|a|<|b| at block %d of %d' % (d, ta), ta, tb, ('lt', d)))
    return out

def make_pair(c, n, m, ta, tb, d, hi_a=None, hi_b=None):
    """(a blocks, b blocks, sign of |a|-|b|); hi_b: upper limit of b's top block"""
    B = 0xffffffff
    if d is None:
        a = c.blocks('a', n, ta); b = c.blocks('b', m, tb)
        if hi_b is not None and tb == m: b[m - 1] = c.sym('b_%d' % (m - 1), 1, hi_b)
        return a, b, 1 if ta > tb else -1
    a = [0] * n; b = [0] * m
    t = ta - 1
    top = B if hi_b is None or tb < m else hi_b
    for i in range(ta):
        lo = 1 if i == t else 0; h = top if i == t else B
        if d == 'eq' or i > d[1]: a[i] = b[i] = c.sym('s%d' % i, lo, h)
        elif i < d[1]: a[i] = c.sym('a%d' % i); b[i] = c.sym('b%d' % i)
        elif d[0] == 'gt':
            if min(h, B - 1) < lo: return None
            a[i] = c.sym('a%d' % i, lo + 1, B); b[i] = c.sym('b%d' % i, lo, min(h, B - 1))
            poly.CLASS_FACTS.append(pof(a[i]) - pof(b[i]) - 1)
        else:
            if h < lo + 1: return None
            a[i] = c.sym('a%d' % i, lo, min(h, B) - 1); b[i] = c.sym('b%d' % i, lo + 1, h)
            if isinstance(a[i], V) or isinstance(b[i], V): poly.CLASS_FACTS.append(pof(b[i]) - pof(a[i]) - 1)
    return a, b, 0 if d == 'eq' else 1 if d[0] == 'gt' else -1

def sum_classes(n, m):
    """exhaustive partition of pairs of non-zero magnitudes by how the low blocks of their sum vanish modulo 2^(32 n):
    (label, ta, tb, 'sum', j, i, rel): lowest block with a non-zero digit is j; digit sums at j..i-1 carry out to zero; at block i they do not (rel lt/gt),
    or i == n: every block of the sum vanishes"""
    out = []
    for ta in range(1, n + 1):
        for tb in range(1, min(n, m) + 1):
            if max(ta, tb) < n:
                out.append(('lengths %d,%d' % (ta, tb), ta, tb, 'any')); continue
            for j in range(max(ta, tb)):
                for i in range(j, n):
                    for rel in ('lt', 'gt'): out.append(('lengths %d,%d low digits %d..%d of the sum zero, digit %d %s' % (ta, tb, j, i - 1, i, rel), ta, tb, 'sum', j, i, rel))
                out.append(('lengths %d,%d a+b == 2^N, lowest digit %d' % (ta, tb, j), ta, tb, 'sum', j, n, ''))
    return out

def make_sum(c, n, m, ta, tb, kind, j=None, i=None, rel=None, hi_b=None, const=None):
    B = 0xffffffff
    if kind == 'any':
        a = c.blocks('a', n, ta); b = c.blocks('b', m, tb)
        if hi_b is not None and tb == m: b[m - 1] = c.sym('b_%d' % (m - 1), 1, hi_b)
        return a, b, None
    a = [0] * n; b = [0] * m
    for q in range(j, n):
        la = 1 if q == ta - 1 else 0; ha = B if q < ta else 0
        lb = 1 if q == tb - 1 else 0; hb = (B if hi_b is None or q != m - 1 else hi_b) if q < tb else 0
        if q >= m: lb = hb = 0
        elif const is not None: lb = hb = const[q]
        cin = 0 if q == j else 1
        if q < i or (q == i and rel in ('lt', 'gt')):
            if q < i:                                   # a_q + b_q + cin == 2^32
                T = (1 << 32) - cin
                lo = max(la, T - hb); hi = min(ha, T - lb)
                if lo > hi: return None
                x = c.sym('a%d' % q, lo, hi); a[q] = x
                y = T - x if isinstance(x, int) else mk(K(T) - x.p, T - hi, T - lo)
                if q < m: b[q] = y
                elif y != 0: return None
            elif rel == 'lt':                           # a_q + b_q + cin <= 2^32 - 1
                T = B - cin
                if la + lb > T: return None
                a[q] = x = c.sym('a%d' % q, la, min(ha, T - lb))
                if q < m: b[q] = y = c.sym('b%d' % q, lb, min(hb, T - la))
                else: y = 0
                if isinstance(x, V) or isinstance(y, V): poly.CLASS_FACTS.append(K(T) - pof(x) - pof(y))
                if q == j:
                    if hi_(x) + hi_(y) < 1: return None
                    if isinstance(x, V) or isinstance(y, V): poly.CLASS_FACTS.append(pof(x) + pof(y) - 1)
            else:                                       # a_q + b_q + cin >= 2^32 + 1
                T = (1 << 32) + 1 - cin
                if ha + hb < T: return None
                a[q] = x = c.sym('a%d' % q, max(la, T - hb), ha)
                if q < m: b[q] = y = c.sym('b%d' % q, max(lb, T - ha), hb)
                else: y = 0
                if isinstance(x, V) or isinstance(y, V): poly.CLASS_FACTS.append(pof(x) + pof(y) - T)
        else:
            if q < ta: a[q] = c.sym('a%d' % q, la, ha)
            if q < tb: b[q] = c.sym('b%d' % q, lb, hb) if const is None else const[q]
    # blocks below j are zero in both: the significant lengths must still be those of the class
    if ta - 1 < j or tb - 1 < j: return None
    if const is not None and b != const: return None
    return a, b, None

def iszero_of(e, vals):
    """0/1 polynomial: all blocks zero"""
    z = ONE
    for v in reversed(vals):
        if isinstance(v, int): z = z * (1 if v == 0 else 0)
        else: z = z * e.eqz(v.p, v.lo, v.hi)
    return z

def sgn_spec(sg, z=ZERO): return (ONE - z) * (1 if sg > 0 else 0xffffffff if sg < 0 else 0)

def check_signed(c, e, po, psg, n, N, S, sg, what='', canon=False, exactmod=True):
    """magnitude blocks == S mod 2^N; sign == sg unless the stored magnitude is zero"""
    vals = c.read(e, po, n); g = c.read(e, psg, 1)[0]
    num = number(vals)
    if not canon: c.eq_mod(what + 'magnitude', num, S, N)
    if num is UNDEF or isinstance(num, PU):
        c.note(what + 'sign and magnitude', 'refuted' if canon else 'undecided', 'magnitude uninitialised'); return
    z = iszero_of(e, vals)
    nz = not isinstance(sg, Poly) and not (pof(num) - poly.aspoly(S)).d and poly.prove_nonneg(poly.aspoly(S) - 1, poly.CLASS_FACTS)   # the stored magnitude is the exact non-zero value
    if canon:
        if g is UNDEF or not isinstance(g, (int, V)): c.note(what + 'sign', 'refuted', 'sign uninitialised'); return
        # 0 exactly when the magnitude is zero, +1 / -1 otherwise
        zg = e.eqz(pof(g), lo_(g), hi_(g))
        if nz and zg != z: z = ZERO
        c.eq_mod(what + 'isZero() exactly when the magnitude is zero', mk(zg), z)
        bad = e.ge0(pof(g) - 2, lo_(g) - 2, hi_(g) - 2) - e.eqz(pof(g) - 0xffffffff, lo_(g) - 0xffffffff, hi_(g) - 0xffffffff)
        c.eq_mod(what + 'exactly one of isZero/isPositive/isNegative', mk(bad), ZERO)
        return
    if sg and nz:
        if isinstance(g, int) or not (pof(g) - sgn_spec(sg, z)).d == {}: z = ZERO
    if isinstance(sg, Poly): c.eq_mod(what + 'sign', g, sg)
    else: c.eq_mod(what + 'sign', g, sgn_spec(sg, z))

SG = {1: 'positive', -1: 'negative', 0: 'zero'}
