"""Signed addition, subtraction, negation and stepping are exact (magnitude reduced modulo 2^N on overflow)."""
from props.sutil import *
RULE = 'operands partitioned by sign, significant length and first differing block (exhaustive); result magnitude == |exact| mod 2^N and sign == sign of the exact result (zero when the stored magnitude is zero)'

BIN = [('add', 'o = a + b;', 1), ('addas', 'Aesi<N>& r = (a += b); if (&r != &a) __builtin_trap(); o = a;', 1),
       ('sub', 'o = a - b;', -1), ('subas', 'Aesi<N>& r = (a -= b); if (&r != &a) __builtin_trap(); o = a;', -1)]
SELF = [('addself', 'a += a; o = a;', 2), ('subself', 'a -= a; o = a;', 0), ('addself2', 'o = a + a;', 2), ('subself2', 'o = a - a;', 0)]
UN = [('neg', 'o = -a;', '-'), ('pos', 'o = +a;', '+'), ('inv', 'a.inverse(); o = a;', '-'), ('invinv', 'a.inverse(); a.inverse(); o = a;', '+'),
      ('preinc', 'Aesi<N>& r = ++a; if (&r != &a) __builtin_trap(); o = r;', 1), ('predec', 'Aesi<N>& r = --a; if (&r != &a) __builtin_trap(); o = r;', -1),
      ('postinc_old', 'o = a++;', '+'), ('postinc_new', 'a++; o = a;', 1), ('postdec_old', 'o = a--;', '+'), ('postdec_new', 'a--; o = a;', -1)]
INTG = [('addi', 'o = a + t;', 1, 1), ('addasi', 'a += t; o = a;', 1, 1), ('subi', 'o = a - t;', 1, -1), ('subasi', 'a -= t; o = a;', 1, -1), ('iadd', 'o = t + a;', 1, 1), ('isub', 'o = t - a;', -1, 1)]
TY = [('i32', 'int', 32, True), ('i64', 'long', 64, True), ('u32', 'unsigned', 32, False), ('ull', 'unsigned long long', 64, False)]

def source(N):
    s = HDR + '\nstatic constexpr std::size_t N = %d;\n' % N
    for sa in (1, -1, 0):
        for nm, body, _ in SELF + UN:
            s += 'extern "C" void f_%s_%s(u32* po, int* sg, const u32* pa) { Aesi<N> o, a = mks<N>(pa, %d); %s sts(po, sg, o); }\n' % (nm, SG[sa], sa, body)
        for sb in (1, -1, 0):
            for nm, body, _ in BIN:
                s += 'extern "C" void f_%s_%s_%s(u32* po, int* sg, const u32* pa, const u32* pb) { Aesi<N> o, a = mks<N>(pa, %d), b = mks<N>(pb, %d); %s sts(po, sg, o); }\n' % (nm, SG[sa], SG[sb], sa, sb, body)
        for tn, tt, w, sd in TY:
            for nm, body, _, _ in INTG:
                s += 'extern "C" void f_%s_%s_%s(u32* po, int* sg, const u32* pa, %s t) { Aesi<N> o, a = mks<N>(pa, %d); %s sts(po, sg, o); }\n' % (nm, tn, SG[sa], tt, sa, body)
    return s

def combine(A, sa, B, sb, cmp_):
    """(magnitude before reduction, sign) of sa*A + sb*B with cmp_ = sign(A-B)"""
    if sb == 0: return A, sa
    if sa == 0: return B, sb
    if sa == sb: return A + B, sa
    if cmp_ == 0: return ZERO, 0
    return (A - B, sa) if cmp_ > 0 else (B - A, sb)

def bincase(N, nm, op, sa, sb, cls, canon):
    n = N // 32
    def run(c):
        e = c.engine('s%d' % N)
        if sa and sb:
            p = make_pair(c, n, n, *cls) if sa != sb * op else make_sum(c, n, n, *cls)
            if p is None: return
            a, b, r = p
        else:
            a = c.blocks('a', n, cls if sa else 0); b = c.blocks('b', n, cls if sb else 0); r = 1 if sa else -1
        po = c.out(e, 'o', 4 * n); sg = c.out(e, 'sg', 4)
        st, _ = c.call(e, 'f_%s_%s_%s' % (nm, SG[sa], SG[sb]), [po, sg, c.arr(e, 'a', a, const=True), c.arr(e, 'b', b, const=True)])
        c.ub(e)
        if st == 'ok':
            S, s = combine(compose(a), sa, compose(b), sb * op, r)
            check_signed(c, e, po, sg, n, N, S, s, canon=canon)
    return run

def unary(N, nm, op, sa, k, canon, low=None):
    n = N // 32
    def run(c):
        e = c.engine('s%d' % N)
        a = c.blocks('a', n, k)
        if low is not None:
            j, r = low
            for q in range(j): a[q] = 0
            if r == '*': a = [0xffffffff] * k + [0] * (n - k)
            elif r in '+-':
                for q in range(j): a[q] = 0 if r == '-' else 0xffffffff
                if j < n: a[j] = c.sym('d', (r == '-') or (j == k - 1), 0xffffffff - (r == '+'))
            else: a[j] = c.sym('d', 1, (1 << 31) - 1) if r == '<' else 1 << 31 if r == '=' else c.sym('d', (1 << 31) + 1, 0xffffffff)
        po = c.out(e, 'o', 4 * n); sg = c.out(e, 'sg', 4)
        st, _ = c.call(e, 'f_%s_%s' % (nm, SG[sa]), [po, sg, c.arr(e, 'a', a, const=True)])
        c.ub(e)
        if st != 'ok': return
        A = compose(a)
        if op == '-': S, s = A, -sa
        elif op == '+': S, s = A, sa
        elif op == 2 and nm.startswith('add'): S, s = A + A, sa
        elif op == 0: S, s = ZERO, 0
        elif sa == 0: S, s = ONE, op
        else: S, s = (A + op * sa), sa
        check_signed(c, e, po, sg, n, N, S, s, canon=canon)
    return run

def intcase(N, nm, ca, ct, tn, w, sd, sa, st_, cls, canon):
    """t = st_*T"""
    n = N // 32; m = w // 32
    def run(c):
        e = c.engine('s%d' % N)
        hi = 0x7fffffff if sd else None
        if st_ == 0: a = c.blocks('a', n, cls if sa else 0); T = ZERO; t = 0; r = 1
        elif st_ == 'min':
            a = c.blocks('a', n, cls[0] if sa else 0); T = K(1 << (w - 1)); t = 1 << (w - 1)
            r = 1
            if len(cls) > 3:
                p = make_sum(c, n, m, *cls, const=[0] * (m - 1) + [1 << 31])
                if p is None: return
                a = p[0]
            elif sa:
                # relation of |a| to 2^(w-1)
                if cls[0] == m:
                    if cls[1] == 'gt': a[m - 1] = c.sym('h', 1 << 31, 0xffffffff); a[0] = c.sym('h0', 1, 0xffffffff) if m > 1 else a[0]; a[0] = c.sym('h0', (1 << 31) + 1, 0xffffffff) if m == 1 else a[0]
                    elif cls[1] == 'gt2': a[m - 1] = c.sym('h', (1 << 31) + 1, 0xffffffff); a[0] = 0
                    elif cls[1] == 'eq': a = [0] * n; a[m - 1] = 1 << 31
                    else: a[m - 1] = c.sym('h', 1, 0x7fffffff)
                r = (1 if cls[0] > m else -1) if cls[0] != m else {'gt': 1, 'gt2': 1, 'eq': 0, 'lt': -1}[cls[1]]
        else:
            if sa:
                p = make_pair(c, n, m, *cls, hi_b=hi) if sa * ca != st_ * ct else make_sum(c, n, m, *cls, hi_b=hi)
                if p is None: return
                a, b, r = p
            else: a = [0] * n; b = c.blocks('b', m, cls); r = -1; b[m - 1] = c.sym('bh', 1, hi) if sd and cls == m else b[m - 1]
            T = compose(b); t = mk(T) if st_ > 0 else mk(K(1 << w) - T)
        po = c.out(e, 'o', 4 * n); sg = c.out(e, 'sg', 4)
        q, _ = c.call(e, 'f_%s_%s_%s' % (nm, tn, SG[sa]), [po, sg, c.arr(e, 'a', a, const=True), t])
        c.ub(e)
        if q != 'ok': return
        s_t = -1 if st_ == 'min' else st_
        S, s = combine(compose(a), sa * ca, T, s_t * ct, r)
        check_signed(c, e, po, sg, n, N, S, s, canon=canon)
    return run

def build(tier, canon=False):
    mods = {}; units = []
    ws = [96, 128, 256, 512] if tier == 'quick' else [96, 128, 160, 192, 256, 512]
    if canon: ws = [96] if tier == 'quick' else [96, 128, 160]
    for N in ws:
        n = N // 32
        mods['s%d' % N] = (source(N), [])
        for nm, body, op in BIN:
            for sa in (1, -1, 0):
                for sb in (1, -1, 0):
                    cl = (mag_pairs(n, n) if sa != sb * op else sum_classes(n, n)) if sa and sb else [('length %d' % k, k) for k in range(1, n + 1)] if sa or sb else [('', 0)]
                    for x in thin(n, cl):
                        arg = x[1:] if sa and sb else x[1]
                        if n > 10 and sa and sb and arg[:3] == (n, n - 1, None): continue      # the borrow chain exceeds the domain's size limit
                        units.append(Unit('Aesi<%d> %s %s a, %s b {%s} %s' % (N, nm, SG[sa], SG[sb], body, x[0]), bincase(N, nm, op, sa, sb, arg, canon), 100))
        for nm, body, op in SELF + UN:
            for sa in (1, -1, 0):
                for k in (thin(n, range(1, n + 1)) if sa else [0]):
                    if sa and k == n and op == 2:
                        for j in thin(n, range(n)):
                            for r in '<=>': units.append(Unit('Aesi<%d> %s %s a {%s} length %d, lowest digit %d %s 2^31' % (N, nm, SG[sa], body, k, j, r), unary(N, nm, op, sa, k, canon, (j, r)), 100))
                        continue
                    if sa and op in (1, -1) or 'post' in nm:
                        up = '+' if sa * (1 if 'inc' in nm else -1) > 0 else '-'
                        for j in thin(n, range(k + 1 if up == '+' else k)):
                            if j == k and k < n: 
                                if sa: units.append(Unit('Aesi<%d> %s %s a {%s} length %d, all digits full' % (N, nm, SG[sa], body, k), unary(N, nm, op, sa, k, canon, (j, '*')), 100))
                            else: units.append(Unit('Aesi<%d> %s %s a {%s} length %d, %d low digits %s' % (N, nm, SG[sa], body, k, j, 'full' if up == '+' else 'zero'), unary(N, nm, op, sa, k, canon, (j, up)), 100))
                        if not sa: units.append(Unit('Aesi<%d> %s zero a {%s}' % (N, nm, body), unary(N, nm, op, sa, k, canon), 100))
                        continue
                    units.append(Unit('Aesi<%d> %s %s a {%s} length %d' % (N, nm, SG[sa], body, k), unary(N, nm, op, sa, k, canon), 100))
        for tn, tt, w, sd in TY:
            m = w // 32
            for nm, body, ca, ct in INTG:
                for sa in (1, -1, 0):
                    for s_t in (1, -1, 0, 'min'):
                        if not sd and s_t in (-1, 'min'): continue
                        if s_t == 0: cl = [('length %d' % k, k) for k in range(1, n + 1)] if sa else [('', 0)]
                        elif s_t == 'min': cl = [('length %d %s' % (k, q), (k, q)) for k in range(1, n + 1) for q in (('gt', 'gt2', 'eq', 'lt') if k == m and m > 1 else ('gt', 'eq', 'lt') if k == m else ('',))] if sa else [('', (0, ''))]
                        elif sa: cl = [(x[0], x[1:]) for x in (mag_pairs(n, m) if sa * ca != s_t * ct else sum_classes(n, m))]
                        else: cl = [('length %d' % k, k) for k in range(1, m + 1)]
                        if s_t == 'min' and sa and sa * ca == -ct: cl = [x for x in cl if x[1][0] < n] + [(x[0], x[1:]) for x in sum_classes(n, m) if x[1] == n and x[2] == m]
                        if canon and nm not in ('addasi', 'isub'): continue
                        for lab, arg in thin(n, cl):
                            units.append(Unit('Aesi<%d> %s<%s> %s a, t %s {%s} %s' % (N, nm, tt, SG[sa], s_t if s_t == 'min' else SG[s_t], body, lab), intcase(N, nm, ca, ct, tn, w, sd, sa, s_t, arg, canon), 100))
    return mods, units
