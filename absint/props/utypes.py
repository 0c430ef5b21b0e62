"""C29: compile-time contracts, as static_assert witnesses and programs that must not compile."""
import re, os, tempfile, shutil
import core
from core import REPO, VERIF, INC
RULE = ('each contract is a static_assert (type traits, requires-expressions, noexcept, constant evaluation) compiled against the current headers, '
        'or a program violating the interface that must fail to compile; any diagnostic is mapped back to the witness')

PRE = '''#include <type_traits>
#include <concepts>
#include <compare>
#include <string>
#include <string_view>
#include <utility>
#include <AesiMultiprecision/Aeu.h>
#include <AesiMultiprecision/Aesi.h>
template <class T> using C = const T&;
template <class A, class B> concept Plus = requires(A a, B b) { a + b; };
template <class A, class B> concept Minus = requires(A a, B b) { a - b; };
template <class A, class B> concept Times = requires(A a, B b) { a * b; };
template <class A, class B> concept Over = requires(A a, B b) { a / b; };
template <class A, class B> concept Mod = requires(A a, B b) { a % b; };
template <class A, class B> concept Xor = requires(A a, B b) { a ^ b; };
template <class A, class B> concept And = requires(A a, B b) { a & b; };
template <class A, class B> concept Or = requires(A a, B b) { a | b; };
template <class A, class B> concept Shl = requires(A a, B b) { a << b; };
template <class A, class B> concept Shr = requires(A a, B b) { a >> b; };
template <class A, class B> concept PlusA = requires(A a, B b) { a += b; };
template <class A, class B> concept MinusA = requires(A a, B b) { a -= b; };
template <class A, class B> concept TimesA = requires(A a, B b) { a *= b; };
template <class A, class B> concept OverA = requires(A a, B b) { a /= b; };
template <class A, class B> concept ModA = requires(A a, B b) { a %= b; };
template <class A, class B> concept XorA = requires(A a, B b) { a ^= b; };
template <class A, class B> concept AndA = requires(A a, B b) { a &= b; };
template <class A, class B> concept OrA = requires(A a, B b) { a |= b; };
template <class A, class B> concept ShlA = requires(A a, B b) { a <<= b; };
template <class A, class B> concept ShrA = requires(A a, B b) { a >>= b; };
template <class A, class B> concept Equal = requires(A a, B b) { { a == b } -> std::same_as<bool>; { a != b } -> std::convertible_to<bool>; };
template <class A, class B> concept Order = requires(A a, B b) { { a < b } -> std::same_as<bool>; { a <= b } -> std::same_as<bool>; { a > b } -> std::same_as<bool>; { a >= b } -> std::same_as<bool>; };
template <class A> concept SetsBits = requires(A a) { a.setBit(0, true); };
template <class A> concept SetsBytes = requires(A a) { a.setByte(0, 1); };
template <class A> concept SetsBlocks = requires(A a) { a.setBlock(0, 1u); };
template <class A> concept Incs = requires(A a) { ++a; };
template <class A> concept Decs = requires(A a) { --a; };
template <std::size_t N> concept UPrec = requires { typename Aeu<N>; };
template <std::size_t N> concept SPrec = requires { typename Aesi<N>; };
template <class A, std::size_t N> concept Casts = requires(C<A> a) { a.template precisionCast<N>(); };
template <class A, class T> concept ICasts = requires(C<A> a) { { a.template integralCast<T>() } -> std::same_as<T>; };
'''
BINC = ['Plus', 'Minus', 'Times', 'Over', 'Mod']
BITC = ['Xor', 'And', 'Or']
UT = ['bool', 'unsigned char', 'unsigned short', 'unsigned', 'unsigned long', 'unsigned long long']
ST = ['signed char', 'short', 'int', 'long', 'long long']
OPS = {'Plus': '+', 'Minus': '-', 'Times': '*', 'Over': '/', 'Mod': '%', 'Xor': '^', 'And': '&', 'Or': '|', 'Shl': '<<', 'Shr': '>>'}

def witnesses(N, M):
    U = 'Aeu<%d>' % N; S = 'Aesi<%d>' % N; U2 = 'Aeu<%d>' % M; S2 = 'Aesi<%d>' % M
    W = []
    def w(name, e): W.append((name, 'static_assert(%s);' % e))
    for T in (U, S):
        for tr in ('trivially_copyable', 'trivially_destructible', 'standard_layout', 'nothrow_default_constructible', 'nothrow_copy_constructible', 'nothrow_copy_assignable',
                   'nothrow_move_constructible', 'trivially_copy_constructible', 'trivially_copy_assignable'):
            w('%s is %s' % (T, tr.replace('_', ' ')), 'std::is_%s_v<%s>' % (tr, T))
        w('%s is not polymorphic' % T, '!std::is_polymorphic_v<%s>' % T)
        w('%s alignment is that of a block' % T, 'alignof(%s) == 4' % T)
    w('%s occupies exactly %d bytes' % (U, N // 8), 'sizeof(%s) == %d' % (U, N // 8))
    w('%s occupies %d bytes and one sign' % (S, N // 8), 'sizeof(%s) == %d' % (S, N // 8 + 4))
    w('%s reports its precision' % U, '%s::getBitness() == %d && %s::totalBlocksNumber() == %d' % (U, N, U, N // 32))
    w('%s reports its precision' % S, '%s::getBitness() == %d && %s::totalBlocksNumber() == %d' % (S, N, S, N // 32))
    # conversions in
    for t in UT:
        w('%s converts from %s without throwing' % (U, t), 'std::is_convertible_v<%s, %s> && std::is_nothrow_constructible_v<%s, %s>' % (t, U, U, t))
    for t in UT + ST:
        w('%s converts from %s without throwing' % (S, t), 'std::is_convertible_v<%s, %s> && std::is_nothrow_constructible_v<%s, %s>' % (t, S, S, t))
    for t in ST:
        w('%s rejects signed %s' % (U, t), '!std::is_constructible_v<%s, %s> && !std::is_convertible_v<%s, %s>' % (U, t, t, U))
        w('%s rejects assignment of signed %s' % (U, t), '!std::is_assignable_v<%s&, %s>' % (U, t))
        for cc in BINC + BITC:
            w('%s %s signed %s is rejected' % (U, OPS[cc], t), '!%s<C<%s>, %s>' % (cc, U, t))
            w('%s %s= signed %s is rejected' % (U, OPS[cc], t), '!%sA<%s&, %s>' % (cc, U, t))
        for cc in ('Shl', 'Shr'):
            w('%s %s signed %s is rejected' % (U, OPS[cc], t), '!%s<C<%s>, %s>' % (cc, U, t))
            w('%s %s= signed %s is rejected' % (U, OPS[cc], t), '!%sA<%s&, %s>' % (cc, U, t))
    for t in ('double', 'float'):
        for cc in ('Shl', 'Shr'): w('shift of %s by %s is rejected' % (U, t), '!%s<C<%s>, %s> && !%sA<%s&, %s>' % (cc, U, t, cc, U, t))
    for t in ('double', 'float', 'void*'):
        w('%s rejects %s' % (U, t), '!std::is_constructible_v<%s, %s>' % (U, t))
        w('%s rejects %s' % (S, t), '!std::is_constructible_v<%s, %s>' % (S, t))
    w('unsigned does not accept signed number', '!std::is_constructible_v<%s, %s> && !std::is_convertible_v<%s, %s> && !std::is_assignable_v<%s&, %s>' % (U, S, S, U, U, S))
    w('signed accepts unsigned number only explicitly', 'std::is_constructible_v<%s, %s> && !std::is_convertible_v<%s, %s> && !std::is_assignable_v<%s&, %s>' % (S, U, U, S, S, U))
    w('signed does not convert to unsigned implicitly, unsignedCast does', '!std::is_convertible_v<%s, %s> && std::is_same_v<decltype(std::declval<C<%s>>().unsignedCast()), %s>' % (S, U, S, U))
    for A, B in ((U, S), (S, U)):
        for cc in BINC: w('%s %s %s is rejected' % (A, OPS[cc], B), '!%s<C<%s>, C<%s>> && !%sA<%s&, C<%s>>' % (cc, A, B, cc, A, B))
        w('%s == %s is rejected' % (A, B), '!Equal<C<%s>, C<%s>>' % (A, B))
    for A, B in ((U, U2), (S, S2)):
        w('no implicit precision change %s to %s' % (A, B), '!std::is_convertible_v<%s, %s> && !std::is_convertible_v<%s, %s>' % (A, B, B, A))
        w('precisionCast %s to %s' % (A, B), 'std::is_same_v<decltype(std::declval<C<%s>>().template precisionCast<%d>()), %s>' % (A, M, B))
        w('precisionCast to the same precision is rejected for %s' % A, '!Casts<%s, %d>' % (A, N))
        w('equality across precisions %s, %s' % (A, B), 'Equal<C<%s>, C<%s>>' % (A, B))
    # operators
    for T, ints, ops in ((U, UT, BINC + BITC), (S, UT + ST, BINC)):
        for cc in ops:
            o = OPS[cc]
            w('%s %s %s gives %s, without throwing' % (T, o, T, T), 'std::is_same_v<decltype(std::declval<C<%s>>() %s std::declval<C<%s>>()), %s> && noexcept(std::declval<C<%s>>() %s std::declval<C<%s>>())' % (T, o, T, T, T, o, T))
            w('%s %s= %s gives %s&, without throwing' % (T, o, T, T), 'std::is_same_v<decltype(std::declval<%s&>() %s= std::declval<C<%s>>()), %s&> && noexcept(std::declval<%s&>() %s= std::declval<C<%s>>())' % (T, o, T, T, T, o, T))
            w('%s %s= on a constant is rejected' % (T, o), '!%sA<C<%s>, C<%s>>' % (cc, T, T))
            for t in ints:
                w('%s %s %s' % (T, o, t), 'std::is_same_v<decltype(std::declval<%s&>() %s std::declval<%s>()), %s> && noexcept(std::declval<%s&>() %s std::declval<%s>())' % (T, o, t, T, T, o, t))
                w('const %s %s %s' % (T, o, t), 'std::is_same_v<decltype(std::declval<C<%s>>() %s std::declval<%s>()), %s>' % (T, o, t, T))
                w('%s %s= %s' % (T, o, t), 'std::is_same_v<decltype(std::declval<%s&>() %s= std::declval<%s>()), %s&> && noexcept(std::declval<%s&>() %s= std::declval<%s>())' % (T, o, t, T, T, o, t))
                w('%s %s %s' % (t, o, T), 'std::is_same_v<decltype(std::declval<%s>() %s std::declval<C<%s>>()), %s> && noexcept(std::declval<%s>() %s std::declval<C<%s>>())' % (t, o, T, T, t, o, T))
        for t in ints:
            w('%s compares with %s' % (T, t), 'Equal<C<%s>, %s> && Order<C<%s>, %s>' % (T, t, T, t))
            w('%s casts to %s' % (T, t), 'ICasts<%s, %s> && noexcept(std::declval<C<%s>>().template integralCast<%s>())' % (T, t, T, t))
        w('%s compares with itself' % T, 'Equal<C<%s>, C<%s>> && Order<C<%s>, C<%s>> && noexcept(std::declval<C<%s>>() == std::declval<C<%s>>()) && noexcept(std::declval<C<%s>>() < std::declval<C<%s>>())' % ((T,) * 8))
        for o in ('+', '-') + (('~',) if T == U else ()):
            w('unary %s on %s' % (o, T), 'std::is_same_v<decltype(%sstd::declval<C<%s>>()), %s> && noexcept(%sstd::declval<C<%s>>())' % (o, T, T, o, T))
        for o in ('++', '--'):
            w('prefix %s on %s' % (o, T), 'std::is_same_v<decltype(%sstd::declval<%s&>()), %s&> && noexcept(%sstd::declval<%s&>())' % (o, T, T, o, T))
            w('postfix %s on %s' % (o, T), 'std::is_same_v<decltype(std::declval<%s&>()%s), %s> && noexcept(std::declval<%s&>()%s)' % (T, o, T, T, o))
        for cc in ('SetsBits', 'SetsBytes', 'SetsBlocks', 'Incs', 'Decs'):
            w('%s on a constant %s is rejected' % (cc, T), '%s<%s&> && !%s<C<%s>>' % (cc, T, cc, T))
        for q, rt in (('getBit(0)', 'bool'), ('isOdd()', 'bool'), ('isEven()', 'bool'), ('isZero()', 'bool'), ('byteCount()', 'std::size_t'), ('bitCount()', 'std::size_t'), ('filledBlocksNumber()', 'std::size_t'), ('squareRoot()', T)):
            w('%s on a constant %s' % (q, T), 'std::is_same_v<decltype(std::declval<C<%s>>().%s), %s> && noexcept(std::declval<C<%s>>().%s)' % (T, q, rt, T, q))
    for t in UT:
        for cc in ('Shl', 'Shr'):
            o = OPS[cc]
            w('%s %s %s' % (U, o, t), 'std::is_same_v<decltype(std::declval<C<%s>>() %s std::declval<%s>()), %s> && noexcept(std::declval<C<%s>>() %s std::declval<%s>())' % (U, o, t, U, U, o, t))
            w('%s %s= %s' % (U, o, t), 'std::is_same_v<decltype(std::declval<%s&>() %s= std::declval<%s>()), %s&> && noexcept(std::declval<%s&>() %s= std::declval<%s>())' % (U, o, t, U, U, o, t))
    for t in ('double', 'float'):
        for T in (U, S):
            for cc in BINC: w('%s %s %s is rejected' % (T, OPS[cc], t), '!%s<C<%s>, %s>' % (cc, T, t))
    # text
    for T in (U, S):
        for t in ('const char (&)[5]', 'const wchar_t (&)[5]', 'const std::string&', 'const std::wstring&', 'std::string_view', 'std::wstring_view', 'std::string', 'std::string&'):
            w('%s converts from %s' % (T, t), 'std::is_convertible_v<%s, %s>' % (t, T))
        for t in ('char', 'wchar_t'):
            w('%s builds from %s pointer and size' % (T, t), 'std::is_constructible_v<%s, const %s*, std::size_t>' % (T, t))
        w('%s does not build from a bare pointer' % T, '!std::is_constructible_v<%s, const char*>' % T)
    # constant expressions
    for T in (U, S):
        tag = 'u' if T == U else 's'
        w('%s built, added, compared in a constant expression' % T, '[] { %s a = 5u; a += %s(7u); return a == 12u && a > 11u; }()' % (T, T))
        w('%s multiplied, divided in a constant expression' % T, '[] { %s a = 1000003u; %s b = a * a; return b / a == a && (b %% a).isZero(); }()' % (T, T))
        w('%s increments in a constant expression' % T, '[] { %s a = 0u; ++a; a++; --a; return a == 1u; }()' % T)
        w('%s square root in a constant expression' % T, '[] { %s a = 144u; return a.squareRoot() == 12u; }()' % T)
        w('%s power of two and casts in a constant expression' % T, '[] { %s a = %s::power2(40); return a.template integralCast<unsigned long long>() == (1ull << 40) && a.template precisionCast<%d>().bitCount() == 41; }()' % (T, T, M))
        w('%s accessors in a constant expression' % T, '[] { %s a = 0u; a.setBit(3, true); a.setByte(1, 2); a.setBlock(1, 1); return a.getBit(3) && a.getByte(1) == 2 && a.getBlock(1) == 1 && a.filledBlocksNumber() == 2; }()' % T)
        w('%s writes a numeral in a constant expression' % T, '[] { char t[40] {}; %s a = 1234u; a.template getString<10>(t, 40); return t[0] == \'1\' && t[3] == \'4\'; }()' % T)
    w('%s shifts and bitwise in a constant expression' % U, '[] { %s a = 3u; a <<= 33u; a |= %s(1u); return (a >> 33u) == 3u && (~~a) == a && (a ^ a).isZero(); }()' % (U, U))
    w('%s number theory in a constant expression' % U, '[] { %s a = 12u, b = 18u; return %s::gcd(a, b) == 6u && %s::lcm(a, b) == 36u && %s::powm(%s(3u), %s(4u), %s(7u)) == 4u; }()' % ((U,) * 7))
    w('%s negation in a constant expression' % S, '[] { %s a = -5; a.inverse(); return a == 5 && -a < 0 && (-a).isNegative(); }()' % S)
    return W

GLOBAL = [
    ('precision 100 is rejected', 'static_assert(!UPrec<100> && !SPrec<100>);'),
    ('precision 33 is rejected', 'static_assert(!UPrec<33> && !SPrec<33>);'),
    ('precision 127 is rejected', 'static_assert(!UPrec<127> && !SPrec<127>);'),
    ('precision 520 is rejected', 'static_assert(!UPrec<520> && !SPrec<520>);'),
    ('precisions 96, 128, 544 are accepted', 'static_assert(UPrec<96> && SPrec<96> && UPrec<128> && SPrec<128> && UPrec<544> && SPrec<544>);'),
    ('the default precision is 512', 'static_assert(std::is_same_v<Aeu<>, Aeu<512>> && std::is_same_v<Aesi<>, Aesi<512>>);'),
]
# programs that must not compile (the error is not in a substitution context)
FAIL = [
    ('zero precision', 'Aeu<0> x; int main() { return sizeof(x); }'),
    ('zero signed precision', 'Aesi<0> x; int main() { return sizeof(x); }'),
    ('signed built-in plus unsigned number', 'int main() { Aeu<128> a = 1u; auto b = -1 + a; return b.isOdd(); }'),
    ('signed built-in times unsigned number', 'int main() { Aeu<128> a = 1u; auto b = -1l * a; return b.isOdd(); }'),
    ('private representation of unsigned', 'int main() { Aeu<128> a = 1u; return a.blocks[0]; }'),
    ('private representation of signed', 'int main() { Aesi<128> a = 1u; return a.base.isOdd(); }'),
    ('signed from a chosen sign and magnitude', 'int main() { Aeu<128> m = 1u; Aesi<128> a((Sign)-1, m); return a.isOdd(); }'),
    ('order of unsigned and signed numbers', 'int main() { Aeu<128> a = 1u; Aesi<128> b = 1; return a < b; }'),
    ('order of signed and unsigned numbers', 'int main() { Aeu<128> a = 1u; Aesi<128> b = 1; return b < a; }'),
    ('derivation from unsigned', 'struct X : Aeu<128> {}; int main() {}'),
    ('derivation from signed', 'struct X : Aesi<128> {}; int main() {}'),
    ('squared assignment to a constant', 'int main() { const Aeu<128> a = 1u; a *= a; }'),
]
_info = {}

def build(tier): return {}, []

def clang(d, text, flags):
    p = d + '/h.cpp'
    with open(p, 'w') as f: f.write(text)
    r = core.run_cmd(['clang++-18', '-std=gnu++20', '-fsyntax-only', '-ferror-limit=0', '-fconstexpr-steps=50000000', '-w', '-I' + INC] + list(flags) + [p])
    return r.returncode, r.stderr

def finish(tier, mods):
    cfgs = [(128, 256), (512, 96)] if tier == 'quick' else [(96, 128), (128, 256), (160, 96), (256, 512), (512, 96), (1024, 2048), (2048, 1024)]
    flagsets = [[], ['-DAESI_UNSAFE']]
    obls = []
    d = tempfile.mkdtemp(prefix='absint_')
    try:
        rc, err = clang(d, PRE, [])
        if rc: return [('C29: headers', 'error', 'the headers do not compile: ' + err[:1500], '', '', 'value')], {}
        from concurrent.futures import ThreadPoolExecutor
        def one(job):
            k, kind, flags, label, wl = job
            dd = '%s/%d' % (d, k); os.mkdir(dd)
            out = []
            if kind == 'fail':
                nm, prog = wl
                rc, err = clang(dd, PRE + prog + '\n', flags)
                out.append(('must not compile: %s {%s}%s' % (nm, prog, label), 'proved' if rc else 'refuted', '' if rc else 'the program compiles', 'AesiMultiprecision headers', prog, 'value'))
                return out
            lines = PRE.count('\n')
            text = PRE + ''.join(x + '\n' for _, x in wl)
            rc, err = clang(dd, text, flags)
            bad = {}
            cur = None; grp = []
            groups = []
            for ln in err.split('\n'):
                if re.search(r': (fatal )?error: ', ln):
                    grp = []; groups.append(grp)
                grp.append(ln)
            stray = []
            for g in groups:
                hit = None
                for ln in g:
                    mm = re.match(r'.*/h\.cpp:(\d+):', ln)
                    if mm and int(mm.group(1)) > lines: hit = int(mm.group(1)) - lines - 1
                src = [re.sub(r'^.*/include/AesiMultiprecision/', '', ln.split(': ')[0]) for ln in g if 'include/AesiMultiprecision/' in ln]
                if hit is None: stray.append(g[0]); continue
                bad.setdefault(hit, (re.sub(r'^\S*h\.cpp:\S+ ', '', g[0])[:240], src[0] if src else ''))
            for i, (nm, x) in enumerate(wl):
                if i in bad: out.append((nm + label, 'refuted', bad[i][0], bad[i][1] or 'interface of ' + nm.split(' ')[0], x[:200], 'value'))
                else: out.append((nm + label, 'proved', '', '', '', 'value'))
            if stray: out.append(('diagnostics outside the witnesses' + label, 'undecided', stray[0][:300], '', '', 'value'))
            return out
        jobs = []
        for fl in flagsets:
            lab = ' [%s]' % fl[0][2:] if fl else ''
            jobs.append((len(jobs), 'pass', fl, lab, GLOBAL))
            for N, M in cfgs: jobs.append((len(jobs), 'pass', fl, lab, witnesses(N, M)))
            for f in FAIL: jobs.append((len(jobs), 'fail', fl, lab, f))
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(one, jobs): obls += r
    finally: shutil.rmtree(d, ignore_errors=True)
    return obls, dict(witness_programs=len(jobs), configurations=[c for c in map(str, cfgs)], rule=RULE, explanation='type-level witnesses compiled against the current headers')
