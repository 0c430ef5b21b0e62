"""Models of the libgmp leaves: an mpz object is {int alloc, int size, limb*} with 64-bit limb cells; signs and limb counts are concrete per class."""
import poly, llir
from poly import K, ZERO, ONE
from engine import *
import iomodel

def objp(e, x):
    if not isinstance(x, Ptr) or not isinstance(x.off, int): raise Undecided('mpz object')
    return x
def get(e, p):
    """(sign, limbs little endian) of an mpz object"""
    p = objp(e, p)
    n = e.load_bytes(Ptr(p.o, p.off + 4), 4)
    if n is UNDEF: e.event('use of an uninitialised mpz', ONE); raise Dead()
    if not isinstance(n, int): raise Undecided('mpz size')
    n = n - (1 << 32) if n >> 31 else n
    d = e.load_bytes(Ptr(p.o, p.off + 8), 8)
    limbs = [e.load_bytes(e.padd(d, 8 * i), 8) for i in range(abs(n))]
    if any(not isinstance(x, (int, V)) for x in limbs): raise Undecided('mpz limb')
    return (n > 0) - (n < 0), limbs
def put(e, p, sg, limbs):
    p = objp(e, p)
    while limbs and isinstance(limbs[-1], int) and limbs[-1] == 0: limbs = limbs[:-1]
    if limbs and lo_(limbs[-1]) == 0: raise Undecided('number of mpz limbs')
    if not limbs: sg = 0
    o = e.new_obj('limbs', 8 * max(1, len(limbs)), 'heap'); c = e.st.mem.wcells(o)
    for i in range(max(1, len(limbs))): c[8 * i] = (8, limbs[i] if i < len(limbs) else 0)
    e.store_raw(p.o, p.off, 4, max(1, len(limbs)))
    e.store_raw(p.o, p.off + 4, 4, (sg * len(limbs)) & 0xffffffff)
    e.store_raw(p.o, p.off + 8, 8, Ptr(o, 0))
def bitlen(limbs):
    if not limbs: return 0
    a, b = lo_(limbs[-1]).bit_length(), hi_(limbs[-1]).bit_length()
    if a != b: raise Undecided('mpz bit length')
    return 64 * (len(limbs) - 1) + a

def m_sizeinbase(e, args, f):
    sg, l = get(e, args[0])
    if not isinstance(args[1], int): raise Undecided('base')
    k = args[1].bit_length() - 1
    if args[1] != 1 << k or k < 1: raise Undecided('size in base %s' % args[1])
    return max(1, -(-bitlen(l) // k))
def m_size(e, args, f): return len(get(e, args[0])[1])
def m_getlimbn(e, args, f):
    sg, l = get(e, args[0]); i = args[1]
    if not isinstance(i, int): raise Undecided('limb index')
    return l[i] if i < len(l) else 0
def m_getui(e, args, f):
    sg, l = get(e, args[0]); return l[0] if l else 0
def m_export(e, args, f):
    dst, cntp, order, size, endian, nails, src = args
    if any(not isinstance(x, int) for x in (order, size, endian, nails)) or nails or size not in (1, 2, 4, 8): raise Undecided('mpz_export form')
    sg, l = get(e, src)
    order = order - (1 << 32) if order >> 31 else order
    endian = endian - (1 << 32) if endian >> 31 else endian
    cnt = -(-bitlen(l) // (8 * size))
    words = []
    for i in range(cnt):
        b = 8 * size * i
        words.append(e.bits(l[b // 64], b % 64, b % 64 + 8 * size) if size < 8 else l[i])
    if not cntp == 0 and not (isinstance(cntp, Ptr) and cntp.o is None): e.store(cntp, llir.I(64), cnt)
    for i, w in enumerate(words):
        at = i if order < 0 else cnt - 1 - i
        if endian > 0 and size > 1:
            bs = [e.bits(w, 8 * j, 8 * j + 8) for j in range(size)][::-1]
            v = ZERO
            for j, x in enumerate(bs): v = v + pof(x) * (1 << 8 * j)
            w = mk(v, 0, (1 << 8 * size) - 1)
        e.store(e.padd(dst, at * size), llir.I(8 * size), w)
    return dst
def cmpval(e, sg, l, other):
    """sign of (value - other) for a built-in, as a 0/+1/-1 int32 or case split"""
    so = (other > 0) - (other < 0)
    if sg != so: return sg - so
    if sg == 0: return 0
    if len(l) > 1 or lo_(l[0]) > abs(other): return sg
    if hi_(l[0]) < abs(other): return -sg
    if isinstance(l[0], int): return 0
    p = pof(l[0]) - abs(other)
    g = e.ge0(p - 1, lo_(l[0]) - abs(other) - 1, hi_(l[0]) - abs(other) - 1); z = e.eqz(p, lo_(l[0]) - abs(other), hi_(l[0]) - abs(other))
    return from_cases({(sg & 0xffffffff): g, 0: z, (-sg & 0xffffffff): ONE - g - z})
def m_cmp_si(e, args, f):
    sg, l = get(e, args[0]); o = args[1]
    if not isinstance(o, int): raise Undecided('mpz comparison with a variable')
    if f.name.endswith('_si') and o >> 63: o -= 1 << 64
    r = cmpval(e, sg, l, o)
    return r & 0xffffffff if isinstance(r, int) else r
def m_init(e, args, f): put(e, args[0], 0, [])
def m_set(e, args, f):
    sg, l = get(e, args[1]); put(e, args[0], sg, l)
def m_neg(e, args, f):
    sg, l = get(e, args[1]); put(e, args[0], -sg, l)
def m_abs(e, args, f):
    sg, l = get(e, args[1]); put(e, args[0], abs(sg), l)
def m_setui(e, args, f):
    v = args[1]
    if isinstance(v, int):
        if '_si' in f.name and v >> 63: put(e, args[0], -1, [(1 << 64) - v])
        else: put(e, args[0], 1, [v])
    else:
        if '_si' in f.name and hi_(v) >> 63: raise Undecided('mpz from a possibly negative value')
        put(e, args[0], 1, [v])
def m_clear(e, args, f): return None
def m_r2exp(e, args, f):
    sg, l = get(e, args[1]); k = args[2]
    if not isinstance(k, int) or k % 64 not in (0, 32) or (sg < 0 and 'fdiv' in f.name): raise Undecided('remainder by a power of two')
    l = list(l[: -(-k // 64)])
    if k % 64 and len(l) == k // 64 + 1: l[-1] = e.bits(l[-1], 0, 32)
    put(e, args[0], sg, l)
def m_q2exp(e, args, f):
    sg, l = get(e, args[1]); k = args[2]
    if not isinstance(k, int) or k % 32 or (sg < 0 and 'fdiv' in f.name): raise Undecided('quotient by a power of two')
    w = [e.bits(x, s, s + 32) for x in l for s in (0, 32)][k // 32:]
    if len(w) % 2: w.append(0)
    put(e, args[0], sg, [mk(pof(w[i]) + pof(w[i + 1]) * (1 << 32), 0, (1 << 64) - 1) if not (isinstance(w[i], int) and isinstance(w[i + 1], int)) else w[i] + (w[i + 1] << 32) for i in range(0, len(w), 2)])
def m_new(e, args, f):
    if not isinstance(args[0], int): raise Undecided('allocation size')
    return Ptr(e.new_obj('heap', args[0], 'heap'), 0)
def m_del(e, args, f): return None
def m_throw(e, args, f):
    e.event('exception', ONE, f.name); raise Dead()

MODELS = dict(iomodel.BASE)
MODELS.update({'@__gmpz_sizeinbase': m_sizeinbase, '@__gmpz_size': m_size, '@__gmpz_getlimbn': m_getlimbn, '@__gmpz_get_ui': m_getui, '@__gmpz_export': m_export,
    '@__gmpz_cmp_ui': m_cmp_si, '@__gmpz_cmp_si': m_cmp_si, '@__gmpz_init': m_init, '@__gmpz_init2': m_init, '@__gmpz_init_set': m_set, '@__gmpz_set': m_set, '@__gmpz_neg': m_neg, '@__gmpz_abs': m_abs,
    '@__gmpz_init_set_ui': m_setui, '@__gmpz_init_set_si': m_setui, '@__gmpz_set_ui': m_setui, '@__gmpz_set_si': m_setui, '@__gmpz_clear': m_clear,
    '@__gmpz_tdiv_r_2exp': m_r2exp, '@__gmpz_fdiv_r_2exp': m_r2exp, '@__gmpz_tdiv_q_2exp': m_q2exp, '@__gmpz_fdiv_q_2exp': m_q2exp,
    '@_Znwm': m_new, '@_ZdlPv': m_del, '@_ZdlPvm': m_del, '@_ZSt20__throw_length_errorPKc': m_throw, '@_ZSt17__throw_bad_allocv': m_throw, '@_ZSt28__throw_bad_array_new_lengthv': m_throw})
