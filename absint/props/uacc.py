"""Bit, byte and block accessors of Aeu and Aesi: exactly one position."""
from props.util import *
from props.util import INRANGE
RULE = 'every in-range index as its own class plus the class [first index past the end, 2^64-1]; the whole number after a write and the value read are compared'
KIND = [('bit', 'Bit', 'bool', 1), ('byte', 'Byte', 'unsigned char', 8), ('block', 'Block', 'u32', 32)]

def source(N):
    s = HDR + '\nstatic constexpr std::size_t N = %d;\n' % N
    for k, K_, t, w in KIND:
        s += 'extern "C" void set_%s(u32* p, std::size_t i, %s v) { Aeu<N> a; ld(a, p); a.set%s(i, v); st(p, a); }\n' % (k, t, K_)
        s += 'extern "C" u32 get_%s(const u32* p, std::size_t i) { Aeu<N> a; ld(a, p); return a.get%s(i); }\n' % (k, K_)
        s += 'extern "C" u32 setget_%s(const u32* p, std::size_t i, %s v) { Aeu<N> a; ld(a, p); a.set%s(i, v); return a.get%s(i); }\n' % (k, t, K_, K_)
        for sg, nm in ((1, 'p'), (-1, 'n')):
            s += 'extern "C" void sset%s_%s(u32* p, int* sg, std::size_t i, %s v) { Aesi<N> a = mks<N>(p, %d); a.set%s(i, v); sts(p, sg, a); }\n' % (nm, k, t, sg, K_)
            s += 'extern "C" u32 sget%s_%s(const u32* p, std::size_t i) { Aesi<N> a = mks<N>(p, %d); return a.get%s(i); }\n' % (nm, k, sg, K_)
    return s

def field(A, i, w): return poly.floor_div(A, 1 << (i * w)) - poly.floor_div(A, 1 << (i * w + w)) * (1 << w)

def case(N, k, w, idx, what):
    n = N // 32; cnt = N // w
    def run(c):
        nm0 = c.name
        for i in idx:
            c.fresh(); e = c.engine('u%d' % N)
            c.name = '%s index=%s' % (nm0, i if i != 'out' else '[%d,2^64-1]' % cnt)
            signed = what[0] == 's' and what[:3] in ('sse', 'sge')
            a = c.blocks('a', n, n if signed else None); A = compose(a)
            iv = c.sym('i', cnt, (1 << 64) - 1) if i == 'out' else i
            v = c.sym('v', 0, (1 << w) - 1)
            pa = c.arr(e, 'a', a)
            args = [pa]
            if what.startswith('sset'): sg = c.out(e, 'sg', 4); args.append(sg)
            args.append(iv)
            if 'set' in what: args.append(v)
            st, r = c.call(e, '%s_%s' % (what, k), args)
            c.ub(e)
            if st != 'ok': continue
            F = ZERO if i == 'out' else field(A, i, w)
            if what in ('set', 'ssetp', 'ssetn'):
                S = A if i == 'out' else A + (pof(v) - F) * (1 << (i * w))
                c.eq_mod('number after set', number(c.read(e, pa, n)), S)
                if what != 'set': c.eq_mod('sign after set', c.read(e, sg, 1)[0], 1 if what[-1] == 'p' else 0xffffffff)
            elif what == 'setget': c.eq_mod('value read back', r, ZERO if i == 'out' else pof(v))
            else: c.eq_mod('value read', r, F)
    return run

def build(tier):
    mods = {}; units = []
    for N in ([96, 128, 160, 512, WIDE] if tier == 'quick' else [96, 128, 160, 192, 256, 512, 1024, WIDE]):
        mods['u%d' % N] = (source(N), [])
        for k, K_, t, w in KIND:
            idx = list(range(N // w)) + (['out'] if not INRANGE[0] else [])
            if w == 1 and N > 256: idx = [i for i in range(N) if i % 32 in (0, 1, 7, 30, 31)] + (['out'] if not INRANGE[0] else [])
            if N == WIDE: idx = sorted({0, 1, 255 * 32 // w, 256 * 32 // w - 1, 256 * 32 // w, 255, 256, N // w - 1} & set(range(N // w)))
            for what in ('set', 'get', 'ssetp', 'sgetn') if N == WIDE else ('set', 'get', 'setget', 'ssetp', 'ssetn', 'sgetp', 'sgetn'):
                sub = idx if what[:2] not in ('ss', 'sg') else [i for i in idx if i == 'out' or i % 13 in (0, 5) or i == N // w - 1 or N == WIDE]
                for j in range(0, len(sub), 60):
                    units.append(Unit('%s<%d> %s %s' % ('Aesi' if what[:2] in ('ss', 'sg') else 'Aeu', N, what, k), case(N, k, w, sub[j:j + 60], what), 250))
    return mods, units
