"""Models of the standard-library leaves that text and binary conversion end in (libstdc++ stream classes keep
their own inline bodies; only the out-of-line members are modelled), plus character classification and printf."""
import poly, llir
from poly import K, ZERO, ONE, Poly, floor_div
from engine import *

IOS = {'o': 8, 'i': 16}
FLAGS = {'boolalpha': 1, 'dec': 2, 'fixed': 4, 'hex': 8, 'internal': 16, 'left': 32, 'oct': 64, 'right': 128, 'scientific': 256, 'showbase': 512,
         'showpoint': 1024, 'showpos': 2048, 'skipws': 4096, 'unitbuf': 8192, 'uppercase': 16384}
BAD, EOF_, FAIL = 1, 2, 4

class Stream:
    """a stream object laid out as libstdc++ does, its output as a text object with a position cell"""
    def __init__(s, c, e, kind='o', wide=False, flags=2 | 4096, fill=32, width=0, state=0, cap=1024, data=None, room=None):
        s.e = e; s.wide = wide; s.cw = 4 if wide else 1; s.kind = kind
        vt = e.new_obj('vtable', 64, 'global'); e.st.mem.wcells(vt)[0] = (8, IOS[kind]); e.objs[vt].const = True
        o = e.new_obj('stream', IOS[kind] + 264, 'stream'); d = e.st.mem.wcells(o)
        b = IOS[kind]; s.b = b; s.o = o
        d[0] = (8, Ptr(vt, 24))
        if kind == 'i': d[8] = (8, 0)
        d[b] = (8, Ptr(vt, 24)); d[b + 8] = (8, 6); d[b + 16] = (8, width); d[b + 24] = (4, flags); d[b + 28] = (4, 0); d[b + 32] = (4, state)
        d[b + 224] = (s.cw, fill); d[b + 224 + s.cw] = (1, 1)
        s.text = e.new_obj('text', cap * s.cw, 'text'); s.pos = e.new_obj('position', 16, 'text')
        p = e.st.mem.wcells(s.pos); p[0] = (8, 0)
        p[8] = (8, (1 << 62) if room is None else room)
        if data is not None:
            t = e.st.mem.wcells(s.text)
            for i, v in enumerate(data): t[i * s.cw] = (s.cw, v)
        s.avail = len(data) if data is not None else 0
        streams(e)[o] = s
    def ptr(s): return Ptr(s.o, 0)
    def cell(s, off, size): return s.e.load_bytes(Ptr(s.o, s.b + off), size)
    def set(s, off, size, v): s.e.store_raw(s.o, s.b + off, size, v)
    def getpos(s):
        v = s.e.load_bytes(Ptr(s.pos, 0), 8)
        if not isinstance(v, int): raise Undecided('symbolic stream position')
        return v
    def setpos(s, v): s.e.store_raw(s.pos, 0, 8, v)
    def put(s, ch):
        p = s.getpos()
        if (p + 1) * s.cw > s.e.objs[s.text].size: raise Undecided('stream output length')
        s.e.store_raw(s.text, p * s.cw, s.cw, ch); s.setpos(p + 1)
    def chars(s):
        return [s.e.load_bytes(Ptr(s.text, i * s.cw), s.cw) for i in range(s.getpos())]
    def width(s): 
        w = s.cell(16, 8)
        if not isinstance(w, int): raise Undecided('symbolic stream width')
        return w if w < 1 << 63 else 0
    def ready(s):
        """sentry of an unformatted or formatted operation; False: nothing is done"""
        st = s.cell(32, 4)
        if not isinstance(st, int): raise Undecided('symbolic stream state')
        if st:
            s.set(32, 4, st | FAIL); return False
        return True
    def room(s):
        """one more output operation before the sink fails?"""
        r = s.e.load_bytes(Ptr(s.pos, 8), 8)
        if not isinstance(r, int): raise Undecided('symbolic sink state')
        if r == 0:
            s.set(32, 4, s.cell(32, 4) | BAD); return False
        s.e.store_raw(s.pos, 8, 8, r - 1); return True
    def padded(s, chars, inner=0):
        """formatted output of chars (the first `inner` of them a sign or prefix) padded to the width"""
        if not s.ready(): return
        w = s.width(); s.set(16, 8, 0)
        pad = w - len(chars)
        fl = s.flagbits(32 | 16) if pad > 0 else 0
        f = [s.cell(224, s.cw)] * max(0, pad)
        out = chars + f if fl & 32 else chars[:inner] + f + chars[inner:] if fl & 16 and inner else f + chars
        if not s.room(): return
        for ch in out: s.put(ch)
    def flagbits(s, mask):
        v = s.cell(24, 4)
        if isinstance(v, PU) or v is UNDEF: raise Undecided('stream flags')
        r = s.e.binop('and', 32, v, mask, ())
        if not isinstance(r, int): raise Undecided('symbolic stream flags')
        return r

def streams(e):
    d = getattr(e, '_streams', None)
    if d is None: d = e._streams = {}
    return d
def stream(e, p):
    if not isinstance(p, Ptr) or not isinstance(p.off, int) or p.o not in streams(e): raise Undecided('unknown stream')
    return streams(e)[p.o]

def widen(e, args, f):
    c = args[1]
    return c

# ------------------------------------------------------------------ digits
def numval(e, x):
    if isinstance(x, PU): x = e.usepu(x)
    if x is UNDEF: e.event('use of uninitialised value', ONE); raise Dead()
    if not isinstance(x, (int, V)): raise Undecided('printed value')
    return x

def ndig(e, v, base):
    """number of digits of v, None when the class does not determine it"""
    lo, hi = lo_(v), hi_(v)
    a = nd(lo, base); b = nd(hi, base)
    if a == b: return a
    # path facts
    for k in range(a, b + 1):
        ge = e.ge0(pof(v) - base ** (k - 1), lo - base ** (k - 1), hi - base ** (k - 1)) if k > 1 else ONE
        lt = e.ge0(K(base ** k - 1) - pof(v), base ** k - 1 - hi, base ** k - 1 - lo)
        if ge == ONE and lt == ONE: return k
    return None
def nd(x, base):
    k = 1
    while x >= base: x //= base; k += 1
    return k

def digit(e, v, base, i):
    """i-th digit from the least significant"""
    if isinstance(v, int): return (v // base ** i) % base
    lo, hi = v.lo, v.hi
    f1 = floor_div(v.p, base ** i, lo, hi) if i else v.p
    if hi < base ** (i + 1): return mk(f1, lo // base ** i, hi // base ** i)
    f2 = floor_div(v.p, base ** (i + 1), lo, hi)
    return mk(f1 - f2 * base, 0, base - 1)

def digchar(e, d, upper=False):
    """character of a digit value"""
    if isinstance(d, int): return 48 + d if d < 10 else (55 if upper else 87) + d
    if d.hi < 10: return mk(d.p + 48, d.lo + 48, d.hi + 48)
    z = e.ge0(d.p - 10, d.lo - 10, d.hi - 10)
    k = 7 if upper else 39
    return mk(d.p + 48 + z * k, d.lo + 48, d.hi + 48 + k)

def numeral(e, v, base, upper=False, width=0):
    """characters of v, zero-padded on the left to width"""
    n = ndig(e, v, base)
    if n is None:
        if hi_(v) < base ** width: n = width
        else: raise Undecided('number of digits is not fixed')
    n = max(n, width)
    return [digchar(e, digit(e, v, base, i), upper) for i in range(n - 1, -1, -1)]

# ------------------------------------------------------------------ ostream leaves
def m_insert_num(e, args, f):
    s = stream(e, args[0]); v = numval(e, args[1])
    if s.kind != 'o': raise Undecided('stream kind')
    if not s.ready(): return args[0]
    fl = s.flagbits(2 | 8 | 64 | 512 | 16384)
    bf = fl & (2 | 8 | 64)
    base = 8 if bf == 64 else 16 if bf == 8 else 10
    if ('<long' in f.dem or '(int)' in f.dem or '(short)' in f.dem) and base == 10 and hi_(v) >= 1 << 31: raise Undecided('possibly negative value')
    if '(int)' in f.dem or '(short)' in f.dem:
        if hi_(v) >= 1 << 31: raise Undecided('possibly negative value')
    up = bool(fl & 16384)
    pre = []
    st0 = s.cell(24, 4)
    if base == 10 and not isinstance(v, int) is None: pass
    if fl & 512 and base != 10:
        z = e.eqz(pof(v), lo_(v), hi_(v))
        if z == ONE: pass
        elif z.d: raise Undecided('prefix of a possibly zero value')
        else: pre = [48] if base == 8 else [48, 88 if up else 120]
    w = s.width()
    try: ch = numeral(e, v, base, up)
    except Undecided:
        # zero fill on the left makes the text independent of the number of digits
        if s.cell(224, s.cw) == 48 and not s.flagbits(32) and (not pre) and w and hi_(v) < base ** w: ch = numeral(e, v, base, up, w)
        else: raise
    s.padded(pre + ch, len(pre) if base == 16 else 0)
    return args[0]

def m_ostream_insert(e, args, f):
    s = stream(e, args[0]); n = args[2]
    if not isinstance(n, int): raise Undecided('string length')
    s.padded([ld(e, args[1], i, s.cw) for i in range(n)]); return args[0]
def ld(e, p, i, cw):
    v = e.load(e.padd(p, i * cw), llir.I(8 * cw))
    if v is UNDEF: e.event('use of uninitialised value', ONE); raise Dead()
    if isinstance(v, PU): v = e.usepu(v)
    return v
def m_put(e, args, f):
    s = stream(e, args[0])
    if s.ready() and s.room(): s.put(numval(e, args[1]))
    return args[0]
def m_write(e, args, f):
    s = stream(e, args[0]); n = args[2]
    if not isinstance(n, int): raise Undecided('write length')
    if s.ready() and s.room():
        for i in range(n): s.put(ld(e, args[1], i, s.cw))
    return args[0]
def m_flush(e, args, f): return args[0]
def m_clear(e, args, f):
    p = args[0]
    s = stream(e, Ptr(p.o, 0))
    s.set(32, 4, args[1]); return None

# ------------------------------------------------------------------ istream leaves
def m_read(e, args, f):
    s = stream(e, args[0]); n = args[2]
    if not isinstance(n, int): raise Undecided('read length')
    cnt = 0
    if s.ready():
        p = s.getpos(); cnt = min(n, s.avail - p)
        for i in range(cnt): e.store(e.padd(args[1], i * s.cw), llir.I(8 * s.cw), e.load_bytes(Ptr(s.text, (p + i) * s.cw), s.cw))
        s.setpos(p + cnt)
        if cnt < n: s.set(32, 4, EOF_ | FAIL)
    e.store_raw(s.o, 8, 8, cnt)
    return args[0]
def m_get(e, args, f):
    s = stream(e, args[0]); cnt = 0; r = (1 << 32) - 1
    if s.ready():
        p = s.getpos()
        if p < s.avail: r = e.load_bytes(Ptr(s.text, p * s.cw), s.cw); s.setpos(p + 1); cnt = 1
        else: s.set(32, 4, EOF_ | FAIL)
    e.store_raw(s.o, 8, 8, cnt)
    return r

# ------------------------------------------------------------------ printf
def parse_format(s):
    out = []; i = 0
    while i < len(s):
        if s[i] != '%': out.append(s[i]); i += 1; continue
        j = i + 1; zero = False; width = ''
        while j < len(s) and s[j] in '-+ #0':
            if s[j] == '0': zero = True
            else: raise Undecided('format flag')
            j += 1
        while j < len(s) and s[j].isdigit(): width += s[j]; j += 1
        ln = ''
        while j < len(s) and s[j] in 'lhjz': ln += s[j]; j += 1
        if j >= len(s) or s[j] not in 'xXouc%': raise Undecided('format')
        if s[j] == '%': out.append('%')
        else: out.append((s[j], zero, int(width or 0), ln))
        i = j + 1
    return out

def m_printf(wide):
    cw = 4 if wide else 1
    def h(e, args, f):
        dst, n, fmt = args[:3]; rest = list(args[3:])
        if not isinstance(n, int): raise Undecided('buffer size')
        s = ''; i = 0
        while True:
            ch = ld(e, fmt, i, cw)
            if not isinstance(ch, int): raise Undecided('format text')
            if ch == 0: break
            s += chr(ch); i += 1
        out = []
        for it in parse_format(s):
            if isinstance(it, str): out.append(ord(it)); continue
            k, zero, width, ln = it
            if not rest: e.event('missing printf argument', ONE); raise Dead()
            v = numval(e, rest.pop(0))
            bits = 64 if 'l' in ln or ln in ('j', 'z') else 16 if ln == 'h' else 8 if ln == 'hh' else 32
            v = e.bits(v, 0, bits)
            base = {'x': 16, 'X': 16, 'o': 8, 'u': 10}.get(k)
            if base is None: out.append(v); continue
            if zero: out += numeral(e, v, base, k == 'X', width)
            else:
                d = numeral(e, v, base, k == 'X'); out += [32] * (width - len(d)) + d
        if n:
            m = min(len(out), n - 1)
            for i in range(m): e.store(e.padd(dst, i * cw), llir.I(8 * cw), out[i])
            e.store(e.padd(dst, m * cw), llir.I(8 * cw), 0)
        if wide and len(out) >= n: return (1 << 32) - 1
        return len(out)
    return h

# ------------------------------------------------------------------ characters and strings
def incases(ranges, val=1):
    def h(e, args, f):
        c = numval(e, args[0])
        ty = llir.I(32)
        if 'isw' not in f.dem and 'tow' not in f.dem:
            # is*/to* are defined on unsigned char values and EOF only
            z = pof(e.ge(c, 256)) - pof(e.eq(c, 0xffffffff)) if False else None
            if isinstance(c, int): bad = c > 255 and c != 0xffffffff
            else: bad = c.hi > 255
            e.obl += 1
            if bad:
                if isinstance(c, int): z = ONE
                else: z = e.ge0(c.p - 256, c.lo - 256, c.hi - 256) - e.eqz(c.p - 0xffffffff, c.lo - 0xffffffff, c.hi - 0xffffffff)
                if z.d: e.event('character classification of a value outside unsigned char', z)
        if isinstance(c, V) and c.k is not None:
            return from_cases({x: y for x, y in _agg(c.k, lambda q: val if any(a <= q <= b for a, b in ranges) else 0).items()})
        if isinstance(c, int): return val if any(a <= c <= b for a, b in ranges) else 0
        acc = ZERO
        for a, b in ranges: acc = acc + e.ge0(c.p - a, c.lo - a, c.hi - a) - e.ge0(c.p - b - 1, c.lo - b - 1, c.hi - b - 1)
        return from_cases({val: acc, 0: ONE - acc})
    return h
def _agg(k, fn):
    out = {}
    for x, c in k.items():
        q = fn(x); out[q] = out[q] + c if q in out else c
    return out
DIG = [(48, 57)]; UP = [(65, 90)]; LOW = [(97, 122)]
def m_strlen(cw):
    def h(e, args, f):
        i = 0
        while True:
            v = ld(e, args[0], i, cw)
            if isinstance(v, int):
                if v == 0: return i
            else:
                z = e.eqz(pof(v), lo_(v), hi_(v))
                if z.d: raise Undecided('string length')
            i += 1
    return h
def m_case(delta, ranges):
    def h(e, args, f):
        c = numval(e, args[0])
        if isinstance(c, V) and c.k is not None: return from_cases(_agg(c.k, lambda q: (q + delta) if any(a <= q <= b for a, b in ranges) else q))
        if isinstance(c, int): return (c + delta) if any(a <= c <= b for a, b in ranges) else c
        raise Undecided('case conversion')
    return h
def m_memcpy(e, args, f):
    if not isinstance(args[2], int): raise Undecided('memcpy length')
    e.memcpy(args[0], args[1], args[2]); return args[0]
def m_memset(e, args, f):
    if not isinstance(args[2], int): raise Undecided('memset length')
    e.memset(args[0], args[1], args[2]); return args[0]
def m_assert(e, args, f):
    e.event('failed assertion', ONE, f.name); raise Dead()
def m_abort(e, args, f):
    e.event('abnormal termination', ONE, f.name); raise Dead()

BASE = {'@__assert_fail': m_assert, '@_ZSt21__glibcxx_assert_failPKciS0_S0_': m_assert, '@abort': m_abort, '@_ZSt9terminatev': m_abort, '@__clang_call_terminate': m_abort,
        '@memcpy': m_memcpy, '@memmove': m_memcpy, '@memset': m_memset, '@strlen': m_strlen(1), '@wcslen': m_strlen(4),
        '@snprintf': m_printf(False), '@swprintf': m_printf(True),
        '@isalnum': incases(DIG + UP + LOW, 8), '@iswalnum': incases(DIG + UP + LOW, 8), '@isdigit': incases(DIG, 2048), '@iswdigit': incases(DIG, 2048),
        '@isalpha': incases(UP + LOW, 1024), '@iswalpha': incases(UP + LOW, 1024), '@isxdigit': incases(DIG + [(65, 70), (97, 102)], 4096), '@iswxdigit': incases(DIG + [(65, 70), (97, 102)], 4096),
        '@isspace': incases([(9, 13), (32, 32)], 8192), '@iswspace': incases([(9, 13), (32, 32)], 8192), '@isupper': incases(UP, 256), '@islower': incases(LOW, 512), '@iswupper': incases(UP, 256), '@iswlower': incases(LOW, 512),
        '@isprint': incases([(32, 126)], 16384), '@ispunct': incases([(33, 47), (58, 64), (91, 96), (123, 126)], 4),
        '@toupper': m_case(-32, LOW), '@towupper': m_case(-32, LOW), '@tolower': m_case(32, UP), '@towlower': m_case(32, UP),
        'std::basic_ios<char, std::char_traits<char>>::widen(char) const': widen, 'std::basic_ios<wchar_t, std::char_traits<wchar_t>>::widen(char) const': widen}
for C, cc, T in (('c', 'c', 'o'), ('w', 'w', 'basic')):
    os = 'So' if C == 'c' else 'St13basic_ostreamIwSt11char_traitsIwEE'
    is_ = 'Si' if C == 'c' else 'St13basic_istreamIwSt11char_traitsIwEE'
    for t in 'mlyx': BASE['@_ZN%s9_M_insertI%sEER%sT_' % (os, t, os if C == 'c' else 'S2_')] = m_insert_num
    for t in 'msitjly': BASE['@_ZN%slsE%s' % (os, t)] = m_insert_num
    BASE['@_ZSt16__ostream_insertI%sSt11char_traitsI%sEERSt13basic_ostreamIT_T0_ES6_PKS3_l' % (C, C)] = m_ostream_insert
    BASE['@_ZN%s3putE%s' % (os, C)] = m_put
    BASE['@_ZN%s5writeEPK%sl' % (os, C)] = m_write
    BASE['@_ZN%s5flushEv' % os] = m_flush
    BASE['@_ZN%s4readEP%sl' % (is_, C)] = m_read
    BASE['@_ZN%s3getEv' % is_] = m_get
    BASE['@_ZNSt9basic_iosI%sSt11char_traitsI%sEE5clearESt12_Ios_Iostate' % (C, C)] = m_clear
