"""Parsing: the constructed value is the numeral's value modulo 2^N; nothing outside the text is read."""
from props.util import *
import contracts, iomodel
from engine import from_cases
from props.udiv import codes
RULE = ('texts partitioned by entry form, character type, sign, prefix and number of digits, every digit an independent symbol over all the characters that denote it (both letter cases); '
        'character tests are decided per constant of the symbol, the accumulated number must equal the sum of digit*base^position modulo 2^N; the text is an object of exactly the given length, reading past it is an obligation')

PFX = {2: ['0b', '0B'], 8: ['0o', '0O'], 16: ['0x', '0X'], 10: ['']}
NM = {2: 'binary', 8: 'octal', 10: 'decimal', 16: 'hexadecimal'}
LITS = [1, 2, 7, 12]
def source(N, wide):
    C = 'wchar_t' if wide else 'char'
    s = HDR + '\n#include <string>\n#include <string_view>\nstatic constexpr std::size_t N = %d;\nextern "C" void f_codes(u32* o) { Aeu<N> a = 1u, b = 2u; o[0] = (u32)(unsigned char)a.compareTo(b); o[1] = (u32)(unsigned char)a.compareTo(a); o[2] = (u32)(unsigned char)b.compareTo(a); }\n' % N
    for T, p, out, arg in (('Aeu<N>', 'u', 'st(po, a)', ''), ('Aesi<N>', 's', 'sts(po, sg, a)', ', int* sg')):
        s += 'extern "C" void %s_ptr(u32* po%s, const %s* t, std::size_t n) { %s a(t, n); %s; }\n' % (p, arg, C, T, out)
        s += 'extern "C" void %s_str(u32* po%s, const std::basic_string<%s>& t) { %s a(t); %s; }\n' % (p, arg, C, T, out)
        s += 'extern "C" void %s_rstr(u32* po%s, std::basic_string<%s>& t) { %s a(std::move(t)); %s; }\n' % (p, arg, C, T, out)
        s += 'extern "C" void %s_view(u32* po%s, const %s* t, std::size_t n) { const std::basic_string_view<%s> v(t, n); %s a(v); %s; }\n' % (p, arg, C, C, T, out)
        s += 'extern "C" void %s_rview(u32* po%s, const %s* t, std::size_t n) { %s a(std::basic_string_view<%s>(t, n)); %s; }\n' % (p, arg, C, T, C, out)
        for L in sorted({l + k for l in LITS for k in (0, 1, 2, 3)}): s += 'extern "C" void %s_lit%d(u32* po%s, const %s (&t)[%d]) { %s a(t); %s; }\n' % (p, L, arg, C, L + 1, T, out)
    return s

def digit_char(c, i, base):
    """(character value, digit polynomial)"""
    d = poly.sym('d%d' % i, 0, base - 1); u = poly.sym('upper%d' % i, 0, 1) if base > 10 else ZERO
    g = [ONE] + [poly.ge(d - k, -k, base - 1 - k) for k in range(1, base)] + [ZERO]
    cs = {}; val = ZERO
    for k in range(base):
        q = g[k] - g[k + 1]
        if k < 10: cs[48 + k] = q
        else: cs[87 + k] = q * (ONE - u); cs[55 + k] = q * u
        val = val + (g[k] if k else ZERO)
    return from_cases(cs), val

def case(N, wide, sgn, form, lead, pfx, base, L):
    n = N // 32
    def run(c):
        mod = 't%d%s' % (N, 'w' if wide else 'c')
        cd = codes(c, mod); c.fresh()
        e = c.engine(mod); W = contracts.Whole(c.mods[mod], N, cd); e.contracts = W.C
        chars = [ord(x) for x in lead + pfx]; val = ZERO
        for i in range(L):
            ch, d = digit_char(c, i, base); chars.append(ch); val = val * base + d
        cw = 4 if wide else 1
        if form == 'lit': chars.append(0)
        t = c.arr(e, 'text', chars, cw, const=True) if chars else Ptr(e.new_obj('text', 0, 'param', True), 0)
        po = c.out(e, 'o', 4 * n); args = [po]
        if sgn: sg = c.out(e, 'sg', 4); args.append(sg)
        if form in ('ptr', 'view', 'rview'): args += [t, len(chars)]; fn = form
        elif form == 'lit': args.append(t); fn = 'lit%d' % (len(chars) - 1)
        else:
            s = e.new_obj('string', 32, 'param'); w = e.st.mem.wcells(s); w[0] = (8, t); w[8] = (8, len(chars)); e.objs[s].const = form == 'str'
            args.append(Ptr(s, 0)); fn = form
        st, _ = c.call(e, ('s_' if sgn else 'u_') + fn, args); c.ub(e)
        if st != 'ok': return
        got = e.load_bytes(po, 4 * n)
        if isinstance(got, PU): got = UNDEF
        c.eq_mod('value of the numeral modulo 2^%d' % N, got, val, N)
        if sgn:
            g = c.read(e, sg, 1)[0]
            if isinstance(got, (int, V)):
                z = e.eqz(pof(got), lo_(got), hi_(got))
                c.eq_mod('sign', g, (ONE - z) * (0xffffffff if lead.count('-') % 2 else 1))
    return run

def capdigits(N, base):
    k = 0
    while base ** k < 1 << N: k += 1
    return k

def build(tier):
    mods = {}; units = []
    for N in ([96, 64] if tier == 'quick' else [96, 64, 128, 160]):
        for wide in (False, True):
            mods['t%d%s' % (N, 'w' if wide else 'c')] = (source(N, wide), [])
            for sgn in (0, 1):
                for base in (10, 2, 8, 16):
                    cap = capdigits(N, base)
                    for pfx in PFX[base]:
                        for lead in (['', '-'] if sgn else ['', '+']):
                            Ls = list(range(1, cap + 4))
                            alt = lead == '+' or pfx[1:] in ('B', 'O', 'X') or N != 96 or (wide and sgn)
                            if alt and tier == 'quick': Ls = [1, 2, 3, cap // 2, cap - 1, cap, cap + 1, cap + 3]
                            for form in ('ptr', 'str', 'rstr', 'view', 'rview', 'lit'):
                                if form == 'lit': ls = [l for l in LITS]
                                elif form != 'ptr': ls = [1, cap - 1, cap + 1]
                                else: ls = Ls
                                if form != 'ptr' and lead == '+': continue
                                for L in ls:
                                    if form == 'lit' and len(lead + pfx) + L not in {l + k for l in LITS for k in (0, 1, 2, 3)}: continue
                                    units.append(Unit('%s<%d> from %s %s "%s%s" + %d %s digits' % ('Aesi' if sgn else 'Aeu', N, 'wchar_t' if wide else 'char', form, lead, pfx, L, NM[base]), case(N, wide, sgn, form, lead, pfx, base, L), 60))
                units.append(Unit('%s<%d> from %s pointer and size 0' % ('Aesi' if sgn else 'Aeu', N, 'wchar_t' if wide else 'char'), case(N, wide, sgn, 'ptr', '', '', 10, 0), 60))
    lemmas(mods, units, [('uadd', r'^Aeu<96>', '96'), ('umul', r'^Aeu<96> .*unsigned int', '96')])
    return mods, units
