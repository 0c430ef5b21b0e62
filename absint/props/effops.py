"""The public operations as thin wrappers taking references, for the effect analysis (C27, C28)."""
from props.util import HDR

# (name, parameters [(kind, c++ type, name)], body); kinds: in = must not be written, out = may be written, val
UN = ['unsigned char', 'unsigned short', 'unsigned', 'unsigned long', 'bool']
SN = UN + ['signed char', 'short', 'int', 'long']

def ops(N, M, tier):
    """operations on Aeu<N>/Aesi<N>, second precision M"""
    U = 'Aeu<%d>' % N; S = 'Aesi<%d>' % N; U2 = 'Aeu<%d>' % M; S2 = 'Aesi<%d>' % M
    L = []
    def add(n, ps, body): L.append((n, ps, body))
    for tag, T, T2, ints in (('u', U, U2, UN), ('s', S, S2, SN)):
        r = ('out', T, 'r'); a = ('in', T, 'a'); b = ('in', T, 'b'); l = ('out', T, 'l')
        bins = ['+', '-', '*', '/', '%'] + (['^', '&', '|'] if tag == 'u' else [])
        for o in bins:
            add('%s %s operator%s(%s,%s)' % (tag, N, o, 'a', 'b'), [r, a, b], 'r = a %s b;' % o)
            add('%s %s operator%s=(l,a)' % (tag, N, o), [l, a], 'l %s= a;' % o)
        for it in (ints if tier != 'quick' else [ints[2], ints[3]] + ([ints[7]] if tag == 's' else [])):
            v = ('val', it, 'v')
            for o in bins:
                lk = a
                if o == '*' and tag == 'u': lk = ('in*', T, 'a')        # non-const reference in the interface, still only an operand
                add('%s %s operator%s(a,%s)' % (tag, N, o, it), [r, lk, v], 'r = a %s v;' % o)
                add('%s %s operator%s=(l,%s)' % (tag, N, o, it), [l, v], 'l %s= v;' % o)
                if it != 'bool': add('%s %s operator%s(%s,a)' % (tag, N, o, it), [r, a, v], 'r = v %s a;' % o)
            add('%s %s ==(a,%s)' % (tag, N, it), [a, v], 'return a == v;')
            add('%s %s compareTo(%s)' % (tag, N, it), [a, v], 'return (int)a.compareTo(v);')
            for c in ('<', '>=', '!='): add('%s %s %s(a,%s)' % (tag, N, c, it), [a, v], 'return a %s v;' % c)
            add('%s %s ctor(%s)' % (tag, N, it), [r, v], 'r = %s(v);' % T)
            add('%s %s =(%s)' % (tag, N, it), [r, v], 'r = v;')
            add('%s %s integralCast<%s>' % (tag, N, it), [a], 'return (unsigned long)a.template integralCast<%s>();' % it)
        for o in ('+', '-', '~') if tag == 'u' else ('+', '-'):
            add('%s %s unary %s' % (tag, N, o), [r, a], 'r = %sa;' % o)
        for o in ('++', '--'):
            add('%s %s pre %s' % (tag, N, o), [l], '%sl;' % o)
            add('%s %s post %s' % (tag, N, o), [r, l], 'r = l%s;' % o)
        if tag == 'u':
            v = ('val', 'unsigned', 'v')
            for o in ('<<', '>>'):
                add('u %s operator%s(a,n)' % (N, o), [r, a, v], 'r = a %s v;' % o)
                add('u %s operator%s=(l,n)' % (N, o), [l, v], 'l %s= v;' % o)
        add('%s %s copy' % (tag, N), [r, a], '%s t(a); r = t;' % T)
        for c in ('==', '!=', '<', '<=', '>', '>='): add('%s %s %s(a,b)' % (tag, N, c), [a, b], 'return a %s b;' % c)
        add('%s %s compareTo(b)' % (tag, N), [a, b], 'return (int)a.compareTo(b);')
        c2 = ('in', T2, 'c')
        for c in ('==',): add('%s %s %s other precision' % (tag, N, c), [a, c2], 'return a %s c;' % c)
        add('%s %s compareTo other precision' % (tag, N), [a, c2], 'return (int)a.compareTo(c);')
        ix = ('val', 'std::size_t', 'i')
        add('%s %s setBit' % (tag, N), [l, ix, ('val', 'bool', 'v')], 'l.setBit(i, v);')
        add('%s %s setByte' % (tag, N), [l, ix, ('val', 'unsigned char', 'v')], 'l.setByte(i, v);')
        add('%s %s setBlock' % (tag, N), [l, ix, ('val', 'unsigned', 'v')], 'l.setBlock(i, v);')
        for g in ('getBit', 'getByte', 'getBlock'): add('%s %s %s' % (tag, N, g), [a, ix], 'return (unsigned)a.%s(i);' % g)
        for g in ('byteCount', 'bitCount', 'isOdd', 'isEven', 'isZero', 'filledBlocksNumber', 'getBitness', 'totalBlocksNumber') + (('isPositive', 'isNegative') if tag == 's' else ()):
            add('%s %s %s' % (tag, N, g), [a], 'return (unsigned long)a.%s();' % g)
        add('%s %s swap' % (tag, N), [l, ('out', T, 'k')], 'l.swap(k);')
        add('%s %s divide(4)' % (tag, N), [a, b, ('out', T, 'q'), r], '%s::divide(a, b, q, r);' % T)
        if tag == 'u':
            add('u %s divide(2)' % N, [a, b, ('out', T, 'q'), r], 'auto p = %s::divide(a, b); q = p.first; r = p.second;' % T)
            add('u %s gcd(4)' % N, [a, b, ('out', T, 'x'), ('out', T, 'y'), r], 'r = %s::gcd(a, b, x, y);' % T)
            add('u %s gcd' % N, [r, a, b], 'r = %s::gcd(a, b);' % T)
            add('u %s lcm' % N, [r, a, b], 'r = %s::lcm(a, b);' % T)
            add('u %s powm' % N, [r, a, b, ('in', T, 'c')], 'r = %s::powm(a, b, c);' % T)
            add('u %s powm other precision' % N, [r, a, ('in', U2, 'c'), b], 'r = %s::template powm<%d>(a, c, b);' % (T, M))
        else:
            add('s %s inverse' % N, [l], 'l.inverse();')
            add('s %s unsignedCast' % N, [('out', U, 'r'), a], 'r = a.unsignedCast();')
            add('s %s from unsigned' % N, [r, ('in', U, 'a')], 'r = %s(a);' % T)
        add('%s %s squareRoot' % (tag, N), [r, a], 'r = a.squareRoot();')
        add('%s %s power2' % (tag, N), [r, ix], 'r = %s::power2(i);' % T)
        add('%s %s precisionCast' % (tag, N), [('out', T2, 'r'), a], 'r = a.template precisionCast<%d>();' % M)
        for ch in ('char', 'wchar_t'):
            p = 'L' if ch == 'wchar_t' else ''
            add('%s %s ctor(%s*,n)' % (tag, N, ch), [r, ('in', ch, 't'), ix], 'r = %s(&t, i);' % T)
            add('%s %s ctor(%s literal)' % (tag, N, ch), [r], 'r = %s(%s"0x12ab");' % (T, p))
            add('%s %s ctor(%s view)' % (tag, N, ch), [r, ('in', 'std::basic_string_view<%s>' % ch, 't')], 'r = %s(t);' % T)
            add('%s %s ctor(%s string)' % (tag, N, ch), [r, ('in', 'std::basic_string<%s>' % ch, 't')], 'r = %s(t);' % T)
            for base in (2, 8, 10, 16):
                add('%s %s getString<%d,%s>' % (tag, N, base, ch), [a, ('out', ch, 't'), ix, ('val', 'bool', 'v')], 'return a.template getString<%d, false>(&t, i, v);' % base)
            add('%s %s getString<16,upper,%s>' % (tag, N, ch), [a, ('out', ch, 't'), ix, ('val', 'bool', 'v')], 'return a.template getString<16, true>(&t, i, v);')
            add('%s %s operator<<(%s)' % (tag, N, ch), [('io', 'std::basic_ostream<%s>' % ch, 'os'), a], 'os << a;')
            if tag == 'u' and ch == 'char':
                add('u %s writeBinary(%s)' % (N, ch), [('io', 'std::basic_ostream<%s>' % ch, 'os'), a, ('val', 'bool', 'v')], 'a.writeBinary(os, v);')
                add('u %s readBinary(%s)' % (N, ch), [('io', 'std::basic_istream<%s>' % ch, 'is'), l, ('val', 'bool', 'v')], 'l.readBinary(is, v);')
    return L

def source(N, M, tier):
    src = '#include <string>\n#include <string_view>\n#include <ostream>\n#include <istream>\n' + HDR
    names = []
    for k, (n, ps, body) in enumerate(ops(N, M, tier)):
        fn = 'e_%d' % k
        sig = ', '.join(('const %s& %s' if kd == 'in' else '%s& %s' if kd != 'val' else '%s %s') % (t, p) for kd, t, p in ps)
        ret = 'auto' if 'return' in body else 'void'
        # separate templates so that one overload that does not exist is reported, not silently dropped
        src += 'extern "C" %s %s(%s) { %s }\n' % (ret, fn, sig, body)
        names.append((fn, n, ps, body))
    return src, names
