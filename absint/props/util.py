from core import *
HDR = open(VERIF + '/harness/common.h').read()

def compose(vals):
    """whole number polynomial of little-endian 32-bit blocks"""
    p = ZERO
    for i, v in enumerate(vals): p = p + pof(v) * (1 << (32 * i))
    return p

def all_defined(vals): return not any(v is UNDEF or not isinstance(v, (int, V)) for v in vals)

def number(vals):
    """value of read blocks, UNDEF when any block is undefined"""
    cc = None
    for x in vals:
        if isinstance(x, PU): cc = x.c if cc is None else cc * x.c
    if cc is not None:
        r = number([x.v if isinstance(x, PU) else x for x in vals])
        return r if r is UNDEF else PU(cc, r)
    if not all_defined(vals): return UNDEF
    p = compose(vals)
    return mk(p)

UNS = [('bool', 'bool', 1), ('u8', 'unsigned char', 8), ('u16', 'unsigned short', 16), ('u32', 'unsigned int', 32), ('u64', 'unsigned long', 64), ('ull', 'unsigned long long', 64)]
SGN = [('i8', 'signed char', 8), ('i16', 'short', 16), ('i32', 'int', 32), ('i64', 'long', 64), ('ll', 'long long', 64)]


def pair_classes(n, m):
    """exhaustive partition of pairs (n-block a, m-block b) by numeric relation: (label, kind, position)"""
    k = min(n, m); out = [('equal', 'eq', None)]
    for d in range(k):
        out.append(('a>b at block %d' % d, 'gt', d)); out.append(('a<b at block %d' % d, 'lt', d))
    for d in range(k, n): out.append(('a has top block %d' % d, 'atop', d))
    for d in range(k, m): out.append(('b has top block %d' % d, 'btop', d))
    return out

def pair_of(c, n, m, kind, d, na='a', nb='b'):
    """blocks of a and b in that class, and the sign of a-b"""
    k = min(n, m)
    a = [0] * n; b = [0] * m
    if kind in ('atop', 'btop'):
        for i in range(k): a[i] = c.sym('%s%d' % (na, i)); b[i] = c.sym('%s%d' % (nb, i))
        x = a if kind == 'atop' else b; nm = na if kind == 'atop' else nb
        for i in range(k, d): x[i] = c.sym('%s%d' % (nm, i))
        x[d] = c.sym('%s%d' % (nm, d), 1)
        return a, b, 1 if kind == 'atop' else -1
    for i in range(k):
        if kind == 'eq' or i > d: a[i] = b[i] = c.sym('%s%s%d' % (na, nb, i))
        else: a[i] = c.sym('%s%d' % (na, i)); b[i] = c.sym('%s%d' % (nb, i))
    if kind == 'eq': return a, b, 0
    if kind == 'gt':
        a[d] = c.sym('%s%d' % (na, d), 1); b[d] = c.sym('%s%d' % (nb, d), 0, 0xfffffffe)
        poly.CLASS_FACTS.append(a[d].p - b[d].p - 1); return a, b, 1
    b[d] = c.sym('%s%d' % (nb, d), 1); a[d] = c.sym('%s%d' % (na, d), 0, 0xfffffffe)
    poly.CLASS_FACTS.append(b[d].p - a[d].p - 1); return a, b, -1

REL = [('==', lambda s: s == 0), ('!=', lambda s: s != 0), ('<', lambda s: s < 0), ('<=', lambda s: s <= 0), ('>', lambda s: s > 0), ('>=', lambda s: s >= 0)]
CMPQ = ''.join('o[%d] = (x %s y); ' % (i, r) for i, (r, _) in enumerate(REL))
RCMPQ = ''.join('o[%d] = (y %s x); ' % (i + 6, r) for i, (r, _) in enumerate(REL))
def cmp_expected(s, rev=False):
    out = [('%s' % r, int(f(s))) for r, f in REL]
    if rev: out += [('reversed %s' % r, int(f(-s))) for r, f in REL]
    return out


def lemmas(mods, units, spec, tier='quick'):
    """add analysis units of other checks (callee guarantees this check relies on): spec = [(module, regex on the unit name, regex on the module key)]"""
    import importlib, re
    for modname, rx, krx in spec:
        P = importlib.import_module('props.' + modname)
        m2, u2 = P.build('quick')
        pre = modname + '/'
        used = [u for u in u2 if re.search(rx, u.name)]
        for k, v in m2.items():
            if re.search(krx, k): mods[pre + k] = v
        for u in used:
            def run(c, fn=u.fn, keys=list(m2), pre=pre):
                old = c.mods; c.mods = {k: old[pre + k] for k in keys if pre + k in old}
                c.name = 'callee: ' + c.name
                try: fn(c)
                finally: c.mods = old
            w = Unit('callee: ' + u.name, run, u.limit); w.needs = pre
            units.append(w)
    # drop modules no unit can need
    return mods, units

def thin(n, xs):
    """classes kept at high precision: every position is first, second, middle, last but one, last or one past it; all of them up to five blocks"""
    if n <= 5: return list(xs)
    S = {0, 1, 2, n // 2, n - 1, n}
    def ok(x):
        if isinstance(x, bool) or x is None or isinstance(x, str): return True
        if isinstance(x, (tuple, list)): return all(ok(y) for y in x)
        return not isinstance(x, int) or x in S
    return [x for x in xs if ok(x)]

INRANGE = [False]      # leave the classes of out-of-range indices out (configuration without argument checks)

WIDE = 8224             # 257 blocks: an index held in eight bits does not reach the top block
