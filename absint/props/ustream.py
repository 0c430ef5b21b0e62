"""Stream insertion: the text it prints (C19) and the stream formatting it leaves (C20)."""
from props.util import *
import contracts, iomodel
from props.udiv import codes
from props.ugets import number_of, digits_of, cap_, nibs, klabel
RULES = {
    'C19': 'numbers partitioned by sign and number of digits, streams by basefield, showbase and case with every other format flag and the fill character free; the inserted characters must be the symbolic digit characters of the numeral',
    'C20': 'same partition; the flags word and the fill cell of the stream object after the insertion must equal their (partly free) values before it',
}
RULE = 'numbers partitioned by sign and number of digits, streams by format flags'
F = iomodel.FLAGS
def source(N, wide):
    C = 'wchar_t' if wide else 'char'
    s = HDR + '\n#include <ostream>\nstatic constexpr std::size_t N = %d;\nextern "C" void f_codes(u32* o) { Aeu<N> a = 1u, b = 2u; o[0] = (u32)(unsigned char)a.compareTo(b); o[1] = (u32)(unsigned char)a.compareTo(a); o[2] = (u32)(unsigned char)b.compareTo(a); }\n' % N
    s += 'extern "C" void u_ins(std::basic_ostream<%s>& os, const u32* pa) { Aeu<N> a; ld(a, pa); auto& r = (os << a); if (&r != &os) __builtin_trap(); }\n' % C
    for sg, nm in ((1, 'p'), (-1, 'n'), (0, 'z')):
        s += 'extern "C" void %s_ins(std::basic_ostream<%s>& os, const u32* pa) { Aesi<N> a = mks<N>(pa, %d); auto& r = (os << a); if (&r != &os) __builtin_trap(); }\n' % (nm, C, sg)
    s += 'extern "C" void u_two(std::basic_ostream<%s>& os, const u32* pa) { Aeu<N> a; ld(a, pa); os << a << a; }\n' % C
    return s

BF = {'hex': 8, 'oct': 64, 'dec': 2, 'no basefield': 0}
RAD = {'hex': 16, 'oct': 8, 'dec': 10, 'no basefield': 10}

def case(N, wide, kind, bf, show, up, adj, K_, which, fn='ins'):
    n = N // 32
    def run(c):
        mod = 's%d%s' % (N, 'w' if wide else 'c')
        cd = codes(c, mod); c.fresh(); e = c.engine(mod)
        W = contracts.Whole(c.mods[mod], N, cd, skip=()); e.contracts = W.C
        base = RAD[bf]
        pa, num = number_of(c, e, N, base, K_)
        fl = K(BF[bf] | (F['showbase'] if show else 0) | (F['uppercase'] if up else 0) | adj)
        for nm in ('boolalpha', 'fixed', 'scientific', 'showpoint', 'showpos', 'skipws', 'unitbuf'):
            fl = fl + poly.sym(nm, 0, 1) * F[nm]
        fl = mk(fl, 0, 32767)
        fill = c.sym('fill', 0, 255 if not wide else 0xffffffff)
        s = iomodel.Stream(c, e, 'o', wide, fl, fill)
        st, r = c.call(e, '%s_%s' % (kind, fn), [s.ptr(), pa]); c.ub(e)
        if st != 'ok': return
        if which == 'C20':
            c.eq_mod('format flags after the insertion', s.cell(24, 4), fl)
            c.eq_mod('fill character after the insertion', s.cell(224, s.cw), fill)
            return
        text = ([45] if kind == 'n' else []) + ([48, 120 if base == 16 else 111] if show and base != 10 and kind != 'z' else []) + digits_of(e, num, base, K_, up)
        if fn == 'two': text = text + text
        try: got = s.chars()
        except Undecided as ex: c.note('text', 'undecided', str(ex)); return
        if len(got) != len(text):
            c.note('length of the text', 'refuted', '%d characters inserted, the numeral has %d' % (len(got), len(text)), env='any value of the class'); return
        for i, (g, ch) in enumerate(zip(got, text)):
            if not c.eq_mod('character %d of %d' % (i, len(text)), g, ch): break
    return run

ADJ = {'': 0, 'left ': 32, 'right ': 128, 'internal ': 16}
KN = {'u': 'Aeu<%d>', 'p': 'positive Aesi<%d>', 'n': 'negative Aesi<%d>', 'z': 'zero Aesi<%d>'}

def build(tier, which='C19'):
    mods = {}; units = []
    ws = [96, 64, 128, 160] if tier == 'quick' else [96, 64, 128, 160, 192, 256, 512]
    for N in ws:
        for wide in (False, True):
            mods['s%d%s' % (N, 'w' if wide else 'c')] = (source(N, wide), [])
            for bf in BF:
                base = RAD[bf]; cap = cap_(N, base)
                for kind in 'upnz':
                    ks = [0] if kind == 'z' else list(range(0 if kind == 'u' else 1, cap + 1))
                    for show in (0, 1):
                        for up in (0, 1):
                            for an, adj in ADJ.items():
                                q = ks
                                if adj and tier == 'quick': q = [k for k in ks if k in (0, 1, 2, 8, 9, 15, cap - 1, cap)]
                                if (N != ws[0] or wide and kind != 'u' or bf == 'no basefield' or (up and base != 16)) and tier == 'quick': q = [k for k in q if k in (0, 1, 2, 7, 8, 9, 16, 17, cap - 1, cap)]
                                if base == 16 and kind != 'z' and N <= 96: q = list(q) + nibs(N, False)[::1 if kind == 'u' or tier != 'quick' else 7]
                                for k in q:
                                    nm = '%s << %s%s to a %s%s%s%s stream' % (KN[kind] % N, '', klabel(k), an, bf, ' showbase' if show else '', ' uppercase' if up else '') + (' of wchar_t' if wide else '')
                                    units.append(Unit(nm, case(N, wide, kind, bf, show, up, adj, k, which), 60))
                                    if kind == 'u' and k in (0, 1, 9, 12, cap): units.append(Unit('two insertions, ' + nm, case(N, wide, kind, bf, show, up, adj, k, which, 'two'), 60))
    if which == 'C19': lemmas(mods, units, [('udiv', r'^Aeu<96> \{Aeu<N>::divide\(a, b, q, r\);\} n', 'u96$')])
    return mods, units
