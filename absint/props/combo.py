"""Analysis units of the other checks under another build configuration (C30 unsafe mode, C31 device and pre-C++20), or all of them for their safety obligations (C26)."""
import re, importlib, random
from props.util import *
ALL = ['uadd', 'umul', 'ubit', 'ushift', 'uacc', 'ucount', 'ucmp', 'ucons', 'udiv', 'sadd', 'smul', 'sdiv', 'scmp', 'scons', 'ugcd', 'ubez', 'upowm', 'usqrt']
IO = ['uparse', 'ugets', 'ustream', 'ubin']
LINEAR = ['ubit', 'ushift', 'uacc', 'ucount', 'ucons', 'ubin']      # also at 257 blocks
VAR = {'ugets': [dict(which='C17'), dict(which='C18')], 'ustream': [dict(which='C19')]}
RULE = 'the value, sign and safety obligations of the listed checks, on the IR of the same harnesses compiled in the other configuration'
RULES = {
    'C32': 'back edges counted per loop activation on every path of the units of the value and text checks: at most 4N+64; loops treated by induction: a loop cell is shown to decrease strictly at the back edge',
    'C26': 'every load, store, index, shift amount, signed operation, built-in division, assertion and end of function met while the units of the value and text checks are interpreted: no input of the class reaches it outside its defined domain',
    'C30': 'every unit of the value checks whose arguments are in range, on the IR compiled with AESI_UNSAFE',
    'C31': 'every unit of the value checks on the IR compiled with PRE_CPP_20 (pair-wise comparison members instead of <=>) and with the CUDA configuration against stand-in cuda/std headers',
}

def collect(tier, flags, mods, units, label, rx, hdr=None, mem=ALL, seen_callee=None, only=None):
    seen = set() if seen_callee is None else seen_callee
    for modname in mem:
        P = importlib.import_module('props.' + modname)
        m2 = {}; u2 = []
        for kw in VAR.get(modname, [{}]):
            mv, uv = P.build(tier, **kw); m2.update(mv); u2 += uv
        pre = label + '/' + modname + '/'
        keep = []
        for u in u2:
            if u.name.startswith('callee: ') and (u.name in seen or not seen.add(u.name)) and modname != 'x': 
                continue          # those modules are all members of this combination themselves
            if not re.search(rx + ('|<%d>' % WIDE if modname in LINEAR else ''), u.name): continue
            if re.search(NOT.get(label.split(' ')[0], r'^$'), u.name): continue
            keep.append(u)
        for k, (src, fl) in m2.items():
            if '/' in k: continue
            mods[pre + k] = (hdr(src) if hdr else src, list(fl) + list(flags))
        for u in keep:
            def run(c, fn=u.fn, keys=list(m2), pre=pre):
                old = c.mods; c.mods = {k: old[pre + k] for k in keys if pre + k in old}
                c.name = '[%s] %s' % (label, c.name); c.only = only
                fn(c)
            units.append(Unit('[%s] %s' % (label, u.name), run, u.limit))

NOT = {'AESI_UNSAFE': r'N and above'}
OLDREL = '''
#define DEFREL(nm, op) template <class X, class Y> static inline bool nm(const X& x, const Y& y) { \\
    if constexpr (requires { x op y; }) return x op y; \\
    else if constexpr (std::is_integral_v<Y>) return x op X(y); \\
    else if constexpr (std::is_integral_v<X>) return Y(x) op y; \\
    else { const auto c = x.compareTo(y); const int k = c == Comparison::less ? -1 : c == Comparison::greater ? 1 : 0; return k op 0; } }
DEFREL(r_eq, ==) DEFREL(r_ne, !=) DEFREL(r_lt, <) DEFREL(r_le, <=) DEFREL(r_gt, >) DEFREL(r_ge, >=)
'''
NM = {'==': 'r_eq', '!=': 'r_ne', '<': 'r_lt', '<=': 'r_le', '>': 'r_gt', '>=': 'r_ge'}
OCMPQ = ''.join('o[%d] = %s(x, y); ' % (i, NM[r]) for i, (r, _) in enumerate(REL))
ORCMPQ = ''.join('o[%d] = %s(y, x); ' % (i + 6, NM[r]) for i, (r, _) in enumerate(REL))
def oldrel(src):
    """the same harness for a configuration without <=>: operand forms the configuration offers"""
    src = src.replace(CMPQ, OCMPQ).replace(RCMPQ, ORCMPQ).replace('auto d = (x <=> y); o[13] = d < 0 ? 1 : d > 0 ? 2 : d == 0 ? 0 : 3;', 'o[13] = o[12];')
    return src.replace(HDR, HDR + OLDREL)
CUDA = ['-D__CUDACC__', '-D__host__=', '-D__device__=', '-I' + VERIF + '/harness/cuda']
R96 = r"<96>|powm.*<288>"
def build(tier, which='C30'):
    mods = {}; units = []
    if which == 'C26':
        collect('quick', [], mods, units, 'safety', R96 if tier == 'quick' else r'.', mem=ALL + IO, only='ub')
    elif which == 'C32':
        collect('quick', [], mods, units, 'termination', R96 if tier == 'quick' else r'.', mem=ALL + IO, only='loop')
    elif which == 'C30':
        INRANGE[0] = True
        collect('quick', ['-DAESI_UNSAFE'], mods, units, 'AESI_UNSAFE', R96 if tier == 'quick' else r'.', mem=ALL)
        INRANGE[0] = False
    else:
        rx = R96 if tier == 'quick' else r'<(96|128|160)>'
        collect('quick', ['-DPRE_CPP_20'], mods, units, 'PRE_CPP_20', rx, hdr=oldrel)
        collect('quick', CUDA, mods, units, 'CUDA', rx, hdr=oldrel)
    drop(mods, units)
    random.Random(11).shuffle(units)
    return mods, units

def drop(mods, units):
    """modules no kept unit can use are not compiled: keep those whose precision is mentioned"""
    pres = {}
    for u in units:
        for n in re.findall(r'<(\d+)>', u.name): pres.setdefault(n, 0)
    for k in list(mods):
        ns = re.findall(r'\d+', k.rsplit('/', 1)[1])
        if not any(n in pres for n in ns): del mods[k]
