"""Abstract value domain: integer polynomials over canonical atoms.

An atom is an input symbol, floor(P/c), a threshold indicator [q >= t], a bitwise and of two values,
floor(P/D) with symbolic D, or an opaque (havoc) value.  Everything is an exact integer function of
the input symbols except opaque atoms, so  value == spec  is decided by the residual polynomial and
a non-zero residual is confirmed by evaluating it at a point of the input class.
"""
from math import gcd
import random

class Atom:
    __slots__ = ('id', 'kind', 'a', 'b', 'lo', 'hi', 'name', 'fam', 'var', 'opaque', 'depth')

class Limit(Exception):
    pass

ATOMS = []
_keys = {}
CLASS_FACTS = []          # polys >= 0 that hold for the whole input class
GEVARS = {}
MAXTERMS = 60000

def reset():
    ATOMS.clear(); _keys.clear(); CLASS_FACTS.clear(); _gemul.clear()

class Poly:
    __slots__ = ('d', '_h', '_b', '_op')
    def __init__(s, d):
        s.d = d; s._h = None; s._b = None; s._op = None
    def __hash__(s):
        h = s._h
        if h is None:
            h = s._h = hash(frozenset(s.d.items()))
        return h
    def __eq__(s, o):
        return isinstance(o, Poly) and s.d == o.d
    def is_const(s):
        d = s.d
        return not d or (len(d) == 1 and () in d)
    def const(s): return s.d.get((), 0)
    def __add__(s, o):
        if isinstance(o, int):
            if o == 0: return s
            d = dict(s.d); v = d.get((), 0) + o
            if v: d[()] = v
            else: d.pop((), None)
            return Poly(d)
        a, b = (s.d, o.d) if len(s.d) >= len(o.d) else (o.d, s.d)
        d = dict(a)
        for m, c in b.items():
            v = d.get(m, 0) + c
            if v: d[m] = v
            else: del d[m]
        return Poly(d)
    __radd__ = __add__
    def __neg__(s): return Poly({m: -c for m, c in s.d.items()})
    def __sub__(s, o):
        if isinstance(o, int): return s + (-o)
        d = dict(s.d)
        for m, c in o.d.items():
            v = d.get(m, 0) - c
            if v: d[m] = v
            else: del d[m]
        return Poly(d)
    def __rsub__(s, o): return (-s) + o
    def __mul__(s, o):
        if isinstance(o, int):
            if o == 0: return ZERO
            if o == 1: return s
            return Poly({m: c * o for m, c in s.d.items()})
        if len(s.d) * len(o.d) > MAXTERMS * 10: raise Limit('product too large')
        d = {}
        for m1, c1 in s.d.items():
            for m2, c2 in o.d.items():
                c = c1 * c2
                for k, m in mono_mul(m1, m2):
                    v = d.get(m, 0) + c * k
                    if v: d[m] = v
                    else: d.pop(m, None)
        if len(d) > MAXTERMS: raise Limit('poly too large')
        return Poly(d)
    __rmul__ = __mul__
    def __repr__(s): return show(s)
    def opaque(s):
        if s._op is None:
            s._op = any(ATOMS[a].opaque for m in s.d for a in m)
        return s._op

ZERO = Poly({})
ONE = Poly({(): 1})
def K(c): return Poly({(): c}) if c else ZERO

def aspoly(x):
    if isinstance(x, Poly): return x
    if isinstance(x, int): return K(x)
    return x.p

_gemul = {}
def mono_mul(m1, m2):
    if not m1: return ((1, m2),)
    if not m2: return ((1, m1),)
    key = (m1, m2)
    r = _gemul.get(key)
    if r is not None: return r
    r = _mono_norm(sorted(m1 + m2))
    if len(_gemul) > 400000: _gemul.clear()
    _gemul[key] = r
    return r

def _mono_norm(l):
    out = []; prev = None; ges = None
    for a in l:
        A = ATOMS[a]
        if A.lo == 0 and A.hi == 1:
            if a == prev: continue
            if A.kind == 'ge':
                if ges is None: ges = []
                ges.append(a)
        out.append(a); prev = a
    if not ges: return ((1, tuple(out)),)
    if len(ges) > 1:
        fam = {}
        drop = []
        for g in ges:
            A = ATOMS[g]; o = fam.get(A.fam)
            if o is None: fam[A.fam] = g
            else:
                B = ATOMS[o]
                if A.b > B.b: drop.append(o); fam[A.fam] = g
                else: drop.append(g)
        if drop:
            for x in drop: out.remove(x)
            ges = [g for g in ges if g not in drop]
    for g in ges:
        G = ATOMS[g]; x = G.var
        if x is not None and x in out:
            X = ATOMS[x]
            if G.b == X.hi:
                o2 = [a for a in out if a != x]
                return tuple((k * X.hi ** out.count(x), m) for k, m in _mono_norm(o2)) if X.hi else ()
            if G.b == X.lo + 1:
                if X.lo == 0:
                    o2 = list(out); o2.remove(g)
                    return _mono_norm(o2)
                o1 = list(out); o1.remove(g)              # x * rest
                o2 = list(o1); o2.remove(x)               # rest
                o3 = list(out); o3.remove(x)              # g * rest
                r = list(_mono_norm(o1)) + [(-X.lo * k, m) for k, m in _mono_norm(o2)] + [(X.lo * k, m) for k, m in _mono_norm(o3)]
                return tuple(r)
    return ((1, tuple(out)),)

# ---------------------------------------------------------------- atoms
def _new(kind, a, b, lo, hi, name=None, opaque=False):
    A = Atom(); A.id = len(ATOMS); A.kind = kind; A.a = a; A.b = b; A.lo = lo; A.hi = hi; A.name = name; A.fam = None; A.var = None; A.opaque = opaque
    ATOMS.append(A)
    return A

def atom_poly(A): return Poly({(A.id,): 1})

def sym(name, lo, hi):
    """input symbol"""
    k = ('sym', name)
    A = _keys.get(k)
    if A is None:
        A = _new('sym', None, None, lo, hi, name); _keys[k] = A
    if lo == hi: return K(lo)
    return atom_poly(A)

def opaque(name, lo, hi, key=None):
    if key is not None:
        k = ('opq', name, key); A = _keys.get(k)
        if A is None:
            A = _new('opq', None, None, lo, hi, name, True); _keys[k] = A
    else: A = _new('opq', None, None, lo, hi, '%s#%d' % (name, len(ATOMS)), True)
    return atom_poly(A)

def single(p):
    """atom id when p is exactly one atom with coefficient 1"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1: return m[0]
    return None

def mono_bounds(m):
    lo = hi = 1
    i = 0; n = len(m)
    while i < n:
        A = ATOMS[m[i]]; l, h = A.lo, A.hi
        j = i + 1
        while j < n and m[j] == m[i]: j += 1
        e = j - i
        if e > 1:
            if l >= 0: l, h = l ** e, h ** e
            else:
                c = (l ** e, h ** e); l2 = min(c); h2 = max(c)
                if e % 2 == 0 and l < 0 < h: l2 = 0
                l, h = l2, h2
        if lo >= 0 and l >= 0: lo, hi = lo * l, hi * h
        else:
            c = (lo * l, lo * h, hi * l, hi * h); lo, hi = min(c), max(c)
        i = j
    return lo, hi

def bounds(p):
    """sound interval of p over the input class (no path facts)"""
    b = p._b
    if b is not None: return b
    lo = hi = 0
    fl = None
    for m, c in p.d.items():
        if not m: lo += c; hi += c; continue
        l, h = mono_bounds(m)
        if c > 0: lo += c * l; hi += c * h
        else: lo += c * h; hi += c * l
        if len(m) == 1 and ATOMS[m[0]].kind == 'floor':
            if fl is None: fl = []
            fl.append(m[0])
    p._b = (lo, hi)
    if fl and len(p.d) <= 64:
        # floor elimination: k*floor(B/c) with c | k  ==  (k/c)(B - rho), rho in [0,c-1]
        for f in fl[-6:]:
            A = ATOMS[f]; k = p.d[(f,)]
            if k % A.b == 0:
                q = k // A.b
                rest = Poly({m: c for m, c in p.d.items() if m != (f,)}) + A.a * q
                if len(rest.d) < len(p.d) + 2 or len(rest.d) <= 24:
                    l, h = bounds(rest)
                    if q > 0: l -= q * (A.b - 1)
                    else: h -= q * (A.b - 1)
                    lo = max(lo, l); hi = min(hi, h)
    p._b = (lo, hi)
    return lo, hi

# ---------------------------------------------------------------- proving with facts
def relevant_facts(p, facts):
    return facts

def prove_nonneg(p, facts=(), depth=3):
    lo, hi = bounds(p)
    if lo >= 0: return True
    if hi < 0: return False
    if depth == 0: return False
    pd = p.d
    for F in facts:
        fd = F.d
        if len(fd) > 4 * len(pd) + 40: continue
        tried = set()
        for m, c in fd.items():
            if not m: continue
            pc = pd.get(m)
            if pc is None: continue
            if (pc < 0) == (c < 0) and pc % c == 0:
                lam = pc // c
                if lam in tried: continue
                tried.add(lam)
                if len(tried) > 4: break
                q = p - F * lam
                if q.d == pd: continue
                if prove_nonneg(q, facts, depth - 1): return True
    return False

def decide_ge0(p, facts=()):
    lo, hi = bounds(p)
    if lo >= 0: return True
    if hi < 0: return False
    if facts or CLASS_FACTS:
        fs = list(facts) + CLASS_FACTS
        if prove_nonneg(p, fs): return True
        if prove_nonneg(-p - 1, fs): return False
    return None

# ---------------------------------------------------------------- constructors
def subst(p, amap):
    """replace atoms (id -> Poly/int) at top level monomials only"""
    r = {}
    acc = ZERO; hit = False
    keep = {}
    for m, c in p.d.items():
        if any(a in amap for a in m):
            t = K(c)
            for a in m:
                v = amap.get(a)
                t = t * (v if v is not None else Poly({(a,): 1}))
            acc = acc + t; hit = True
        else: keep[m] = c
    if not hit: return p
    return Poly(keep) + acc

def all_bool(q):
    for m, c in q.d.items():
        if c < 0: return False
        for x in m:
            A = ATOMS[x]
            if A.lo != 0 or A.hi != 1: return False
    return True

def subst_deep(p, amap, memo=None):
    """replace symbols everywhere, rebuilding the atoms above them"""
    if memo is None: memo = {}
    acc = ZERO; keep = {}; hit = False
    for m, c in p.d.items():
        vs = []
        ch = False
        for a in m:
            v = memo.get(a)
            if v is None:
                v = memo[a] = _subst_atom(a, amap, memo)
            if v is not a: ch = True
            vs.append(v)
        if not ch: keep[m] = c; continue
        hit = True
        t = K(c)
        for v in vs: t = t * (v if isinstance(v, Poly) else Poly({(v,): 1}))
        acc = acc + t
    return Poly(keep) + acc if hit else p

def _subst_atom(a, amap, memo):
    v = amap.get(a)
    if v is not None: return v
    A = ATOMS[a]
    if not isinstance(A.a, Poly): return a
    x = subst_deep(A.a, amap, memo)
    y = subst_deep(A.b, amap, memo) if isinstance(A.b, Poly) else A.b
    if x is A.a and y is A.b: return a
    if A.kind == 'floor': return floor_div(x, A.b)
    if A.kind == 'ge': return ge(x - A.b)
    if A.kind == 'and':
        if x.is_const() and y.is_const(): return K(x.const() & y.const())
        if not x.d or not y.d: return ZERO
        return and_atom(x, y, A.hi)
    if A.kind == 'fdiv':
        if not x.d: return ZERO
        return floor_poly(x, y, A.lo, A.hi)
    if A.kind == 'pw': return pw(x, A.name, y, A.hi)
    return a

def zero_syms(q):
    """atoms that are zero when q == 0 (q a sum of non-negative terms), else None"""
    out = {}
    for m, c in q.d.items():
        if c < 0 or len(m) != 1: return None
        if ATOMS[m[0]].lo < 0: return None
        out[m[0]] = ZERO
    return out

def ge(p, lo=None, hi=None, depth=0):
    """indicator polynomial of p >= 0"""
    l, h = bounds(p)
    if lo is None or l > lo: lo = l
    if hi is None or h < hi: hi = h
    if lo >= 0: return ONE
    if hi < 0: return ZERO
    if lo == -1 and hi == 0: return p + 1
    if CLASS_FACTS:
        d = decide_ge0(p)
        if d is True: return ONE
        if d is False: return ZERO
    t = -p.d.get((), 0)
    q = {m: c for m, c in p.d.items() if m}
    g = 0
    for c in q.values():
        g = gcd(g, c)
        if g == 1: break
    t0 = t
    if g > 1:
        q = {m: c // g for m, c in q.items()}
        t = -((-t) // g)
    ql = -((-(lo + t0)) // g); qh = (hi + t0) // g
    if ql >= t: return ONE
    if qh < t: return ZERO
    if qh == ql + 1: return Poly(q) - ql
    lead = max(q)
    if q[lead] < 0:
        qp = Poly({m: -c for m, c in q.items()})
        return ONE - _ge(qp, 1 - t, depth)
    return _ge(Poly(q), t, depth)

def _ge(q, t, depth):
    """[q >= t], q without constant, content 1, positive leading coefficient"""
    lo, hi = bounds(q)
    if lo >= t: return ONE
    if hi < t: return ZERO
    if hi == lo + 1: return q - lo
    a = single(q)
    if a is not None:
        A = ATOMS[a]
        if A.hi == A.lo + 1: return q - A.lo
        if A.kind == 'floor': return ge(A.a - A.b * t)
    elif depth < 4 and not (len(q.d) > 5 and all_bool(q)):
        # boolean atoms that decide the comparison
        tried = 0
        for m, c in q.d.items():
            if len(m) == 1:
                A = ATOMS[m[0]]
                if A.lo == 0 and A.hi == 1:
                    tried += 1
                    if tried > 4: break
                    q0 = subst(q, {m[0]: ZERO}); q1 = subst(q, {m[0]: ONE})
                    l0, h0 = bounds(q0); l1, h1 = bounds(q1)
                    c0 = l0 >= t or h0 < t; c1 = l1 >= t or h1 < t
                    if c0 or c1:
                        r0 = ge(q0 - t, depth=depth + 1); r1 = ge(q1 - t, depth=depth + 1)
                        return r0 + atom_poly(A) * (r1 - r0)
    # low-part drop
    if len(q.d) > 1:
        cs = sorted({abs(c) for c in q.d.values() if abs(c) > 1}, reverse=True)
        for dv in cs[:6]:
            hi_part = {}; lo_part = {}
            for m, c in q.d.items():
                if c % dv == 0: hi_part[m] = c // dv
                else: lo_part[m] = c
            if not lo_part: continue
            L = Poly(lo_part); l, h = bounds(L)
            if h - l < dv:
                # q = dv*H + L,  L in [l,h]; shift so that L-l in [0,dv-1]
                tt = t - l; s = tt % dv; t1 = tt // dv
                if s == 0: return ge(Poly(hi_part) - t1)
                if h - l < s: return ge(Poly(hi_part) - (t1 + 1))
    k = ('ge', q, t)
    A = _keys.get(k)
    if A is None:
        A = _new('ge', q, t, 0, 1); _keys[k] = A
        A.opaque = q.opaque()
        f = _keys.get(('fam', q))
        if f is None:
            f = _keys[('fam', q)] = A.id
        A.fam = f
        A.var = a
    return atom_poly(A)

def eq0(p, lo=None, hi=None):
    """indicator of p == 0"""
    l, h = bounds(p)
    if lo is None or l > lo: lo = l
    if hi is None or h < hi: hi = h
    if lo > 0 or hi < 0: return ZERO
    if lo == 0 and hi == 0: return ONE
    if lo == 0: return ONE - ge(p - 1, -1, hi - 1)
    if hi == 0: return ge(p, lo, 0)
    # boolean-valued difference of the form b*(...)?  general case
    return ge(p, lo, hi) - ge(p - 1, lo - 1, hi - 1)

def floor_div(p, c, lo=None, hi=None):
    """polynomial equal to floor(p / c), c > 0 constant"""
    if c == 1: return p
    l, h = bounds(p)
    if lo is None or l > lo: lo = l
    if hi is None or h < hi: hi = h
    if lo // c == hi // c: return K(lo // c)
    A_ = {}; B_ = {}
    for m, k in p.d.items():
        if m:
            if k % c == 0: A_[m] = k // c
            else: B_[m] = k
        else:
            if k // c: A_[m] = k // c
            if k % c: B_[m] = k % c
    if A_:
        A = Poly(A_); B = Poly(B_)
        al, ah = bounds(A)
        # bounds for B from the caller's interval when A is bounded
        r = floor_div(B, c, None if lo is None else lo - c * ah, None if hi is None else hi - c * al)
        return A + r
    B = p
    # content
    g = c
    for m, k in B.d.items():
        if m: g = gcd(g, k)
        if g == 1: break
    if g > 1:
        k0 = B.d.get((), 0)
        d = {m: k // g for m, k in B.d.items() if m}
        if k0 // g: d[()] = k0 // g
        return floor_div(Poly(d), c // g, lo // g, hi // g)
    # low part drop (2-adic valuation classes)
    vals = set()
    for m, k in B.d.items():
        if m: vals.add(gcd(k, c))
    for dv in sorted(vals, reverse=True):
        if dv == 1: continue
        hp = {}; lp = {}
        for m, k in B.d.items():
            if m and k % dv == 0: hp[m] = k // dv
            elif not m:
                if k // dv: hp[m] = k // dv
                if k % dv: lp[m] = k % dv
            else: lp[m] = k
        if not lp or not hp: continue
        L = Poly(lp); l2, h2 = bounds(L)
        if l2 >= 0 and h2 < dv:
            return floor_div(Poly(hp), c // dv)
        if l2 // dv == h2 // dv:
            return floor_div(Poly(hp) + (l2 // dv), c // dv)
    # nested floor
    nf = None
    for m, k in B.d.items():
        if m:
            if nf is None and k == 1 and len(m) == 1 and ATOMS[m[0]].kind == 'floor': nf = ATOMS[m[0]]
            else: nf = None; break
    if nf is not None:
        return floor_div(nf.a + B.d.get((), 0) * nf.b, c * nf.b)
    if lo // c + 1 == hi // c:
        return ge(B - (hi // c) * c, lo - (hi // c) * c, hi - (hi // c) * c) + (lo // c)
    # boolean case split: floor value determined when one boolean is fixed
    for m, k in B.d.items():
        if len(m) == 1 and len(B.d) > 1:
            X = ATOMS[m[0]]
            if X.lo == 0 and X.hi == 1:
                q0 = subst(B, {X.id: ZERO}); q1 = subst(B, {X.id: ONE})
                l0, h0 = bounds(q0); l1, h1 = bounds(q1)
                if l0 // c == h0 // c and l1 // c == h1 // c:
                    return K(l0 // c) + atom_poly(X) * (l1 // c - l0 // c)
    key = ('floor', B, c)
    A = _keys.get(key)
    if A is None:
        l, h = bounds(B)
        A = _new('floor', B, c, l // c, h // c); A.opaque = B.opaque(); _keys[key] = A
    return atom_poly(A)

def floor_poly(p, d, lo, hi):
    """floor(p / d) for a symbolic divisor d >= 1 and p >= 0"""
    key = ('fdiv', p, d)
    A = _keys.get(key)
    if A is None:
        A = _new('fdiv', p, d, lo, hi); A.opaque = p.opaque() or d.opaque(); _keys[key] = A
    return atom_poly(A)

def pw(ex, base, mod, hi):
    """base^ex mod mod, ex a polynomial with non-negative values (an abstract residue)"""
    if not ex.d: return ONE          # only created for moduli of at least 2
    key = ('pw', ex, base, mod)
    A = _keys.get(key)
    if A is None:
        A = _new('pw', ex, mod, 0, hi); A.name = base; _keys[key] = A
    return atom_poly(A)

def and_atom(p, q, hi):
    if p == q: return p
    a, b = (p, q) if hash(p) <= hash(q) else (q, p)
    key = ('and', a, b)
    A = _keys.get(key)
    if A is None:
        A = _keys.get(('and', b, a))
    if A is None:
        A = _new('and', a, b, 0, hi); A.opaque = p.opaque() or q.opaque(); _keys[key] = A
    return atom_poly(A)

# ---------------------------------------------------------------- evaluation at a point of the class
class Undef(Exception):
    pass

def atom_val(i, env, memo):
    v = memo.get(i)
    if v is not None: return v
    A = ATOMS[i]; k = A.kind
    if k == 'sym':
        v = env.get(i)
        if v is None: raise Undef(A.name)
    elif k == 'floor': v = evalp(A.a, env, memo) // A.b
    elif k == 'ge': v = 1 if evalp(A.a, env, memo) >= A.b else 0
    elif k == 'and': v = evalp(A.a, env, memo) & evalp(A.b, env, memo)
    elif k == 'fdiv':
        d = evalp(A.b, env, memo)
        if d == 0: raise Undef('div0')
        v = evalp(A.a, env, memo) // d
    elif k == 'pw':
        d = evalp(A.b, env, memo)
        if d <= 0: raise Undef('mod0')
        v = pow(evalp(A.name, env, memo), evalp(A.a, env, memo), d)
    else: raise Undef(A.name)
    memo[i] = v
    return v

def evalp(p, env, memo):
    t = 0
    for m, c in p.d.items():
        for a in m:
            if c == 0: break
            v = memo.get(a)
            c *= v if v is not None else atom_val(a, env, memo)
        t += c
    return t

def syms_of(polys):
    seen = set(); out = set(); st = [p for p in polys]
    while st:
        p = st.pop()
        for m in p.d:
            for a in m:
                if a in seen: continue
                seen.add(a); A = ATOMS[a]
                if A.kind in ('sym', 'opq'): out.add(a)
                if isinstance(A.a, Poly): st.append(A.a)
                if isinstance(A.b, Poly): st.append(A.b)
    return out

def atoms_of(polys):
    seen = set(); st = [p for p in polys]
    while st:
        p = st.pop()
        for m in p.d:
            for a in m:
                if a in seen: continue
                seen.add(a); A = ATOMS[a]
                if isinstance(A.a, Poly): st.append(A.a)
                if isinstance(A.b, Poly): st.append(A.b)
    return seen

def show(p, lim=12):
    if not p.d: return '0'
    out = []
    for n, (m, c) in enumerate(sorted(p.d.items(), key=lambda x: (len(x[0]), x[0]))):
        if n >= lim: out.append('... (%d terms)' % len(p.d)); break
        t = '*'.join(show_atom(a) for a in m)
        cs = ('2^%d' % (abs(c).bit_length() - 1)) if abs(c) > 4096 and abs(c) & (abs(c) - 1) == 0 else str(abs(c))
        s = '-' if c < 0 else '+'
        if not m: out.append('%s%s' % (s, cs))
        else: out.append('%s%s%s' % (s, '' if abs(c) == 1 else cs + '*', t))
    return ' '.join(out).lstrip('+')

def show_atom(a, depth=0):
    A = ATOMS[a]
    if A.kind in ('sym', 'opq'): return A.name
    def sh(p): return show(p, 4) if depth < 2 else '..'
    if A.kind == 'floor': return 'floor((%s)/%s)' % (sh(A.a), A.b)
    if A.kind == 'ge': return '[%s>=%s]' % (sh(A.a), A.b)
    if A.kind == 'and': return '(%s & %s)' % (sh(A.a), sh(A.b))
    if A.kind == 'pw': return 'residue^(%s)' % sh(A.a)
    if A.kind == 'fdiv': return 'div(%s, %s)' % (sh(A.a), sh(A.b))
    return '?'
