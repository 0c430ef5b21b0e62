"""tryAtomicSet / tryAtomicExchange (device interface): thread-modular analysis of the block transfers."""
from props.util import *
from props.combo import CUDA
from engine import *
import iomodel
RULE = ('the shared number is memory other threads change at any time: an atomic exchange on it returns an arbitrary value, a plain load an arbitrary value, a plain store is a violation; '
        'obligations: each block published exactly once with the matching block, each value taken out kept in the matching block; and, for one thread, set copies and exchange swaps, signs included')

def source(N):
    return '''unsigned atomicExch(unsigned*, unsigned); unsigned atomicCAS(unsigned*, unsigned, unsigned);
''' + HDR + '''
static constexpr std::size_t N = %d;
extern "C" void set_shared(Aeu<N>& self, const u32* v) { Aeu<N> b; ld(b, v); self.tryAtomicSet(b); }
extern "C" void exch_shared(Aeu<N>& self, u32* v) { Aeu<N> b; ld(b, v); self.tryAtomicExchange(b); st(v, b); }
extern "C" void uset(u32* s, u32* v) { Aeu<N> a, b; ld(a, s); ld(b, v); a.tryAtomicSet(b); st(s, a); st(v, b); }
extern "C" void uexch(u32* s, u32* v) { Aeu<N> a, b; ld(a, s); ld(b, v); a.tryAtomicExchange(b); st(s, a); st(v, b); }
extern "C" void usetself(u32* s) { Aeu<N> a; ld(a, s); a.tryAtomicSet(a); st(s, a); }
extern "C" void uexchself(u32* s) { Aeu<N> a; ld(a, s); a.tryAtomicExchange(a); st(s, a); }
extern "C" void sset(u32* s, int ss, u32* v, int sv, int* os, int* ov) { auto a = mks<N>(s, ss), b = mks<N>(v, sv); a.tryAtomicSet(b); sts(s, os, a); sts(v, ov, b); }
extern "C" void sexch(u32* s, int ss, u32* v, int sv, int* os, int* ov) { auto a = mks<N>(s, ss), b = mks<N>(v, sv); a.tryAtomicExchange(b); sts(s, os, a); sts(v, ov, b); }
''' % N

def models(c, shared, log):
    def exch(e, args, f):
        p, v = args
        if not isinstance(p, Ptr) or not isinstance(p.off, int): raise Undecided('atomic operand')
        if shared and p.o == shared[0]:
            if p.off % 4 or not 0 <= p.off < e.objs[p.o].size: e.event('atomic exchange outside the number', ONE); raise Dead()
            r = c.sym('t%d_%d' % (p.off // 4, len(log))); log.append((p.off // 4, v, r, list(e.st.conds))); return r
        old = e.load(p, llir.I(32)); e.store(p, llir.I(32), v); return old
    m = dict(iomodel.BASE); m['@_Z10atomicExchPjj'] = exch
    return m

def shared_case(N, fn):
    n = N // 32
    def run(c):
        c.fresh(); log = []; sh = []
        e = c.engine('at%d' % N, models=models(c, sh, log))
        po = c.arr(e, 'shared', [c.sym('plain%d' % i) for i in range(n)], const=True); sh.append(po.o)
        v = c.blocks('v', n); pv = c.arr(e, 'v', v)
        st, _ = c.call(e, fn, [po, pv])
        c.ub(e)
        if st != 'ok': return
        blocks = [l[0] for l in log]; cond = any(l[3] for l in log)
        if not cond: c.note('every block published by one atomic exchange', 'proved' if sorted(blocks) == list(range(n)) else 'refuted', 'blocks exchanged: %s of %d' % (blocks, n))
        else:
            for i in range(n):
                t = ZERO
                for k, w, r, cs in log:
                    if k == i:
                        q = ONE
                        for x in cs: q = q * x
                        t = t + q
                c.eq_mod('number of atomic exchanges publishing block %d' % i, mk(t), ONE)
            return
        if sorted(blocks) != list(range(n)): return
        for k, w, r, _ in log: c.eq_mod('value published in block %d' % k, w, pof(v[k]))
        if fn == 'exch_shared':
            got = c.read(e, pv, n)
            for k, w, r, _ in log: c.eq_mod('value taken out of block %d' % k, got[k], pof(r))
    return run

def seq(N, fn):
    n = N // 32
    def run(c):
        c.fresh(); e = c.engine('at%d' % N, models=models(c, [], []))
        s, v = c.blocks('s', n), c.blocks('v', n); S, V_ = compose(s), compose(v)
        ps = c.arr(e, 's', s)
        if fn.endswith('self'):
            st, _ = c.call(e, fn, [ps]); c.ub(e)
            if st == 'ok': c.eq_mod('number', number(c.read(e, ps, n)), S)
            return
        pv = c.arr(e, 'v', v); st, _ = c.call(e, fn, [ps, pv]); c.ub(e)
        if st != 'ok': return
        c.eq_mod('this', number(c.read(e, ps, n)), V_); c.eq_mod('argument', number(c.read(e, pv, n)), V_ if fn == 'uset' else S)
    return run

def sseq(N, fn, ss, sv, fs, fv):
    n = N // 32
    def run(c):
        c.fresh(); e = c.engine('at%d' % N, models=models(c, [], []))
        s = c.blocks('s', n, fs); v = c.blocks('v', n, fv); S, V_ = compose(s), compose(v)
        ps, pv = c.arr(e, 's', s), c.arr(e, 'v', v); os, ov = c.out(e, 'os', 4), c.out(e, 'ov', 4)
        st, _ = c.call(e, fn, [ps, ss & 0xffffffff, pv, sv & 0xffffffff, os, ov]); c.ub(e)
        if st != 'ok': return
        x = fn == 'sexch'
        c.eq_mod('this', number(c.read(e, ps, n)), V_); c.eq_mod('argument', number(c.read(e, pv, n)), S if x else V_)
        c.eq_mod('sign of this', e.load_bytes(os, 4), sv & 0xffffffff); c.eq_mod('sign of the argument', e.load_bytes(ov, 4), (ss if x else sv) & 0xffffffff)
    return run

def build(tier):
    mods = {}; units = []
    for N in ([96, 128, 160, 512] if tier == 'quick' else [64, 96, 128, 160, 192, 256, 384, 512, 1024, 2048]):
        n = N // 32; mods['at%d' % N] = (source(N), CUDA)
        for fn, nm in (('set_shared', 'tryAtomicSet'), ('exch_shared', 'tryAtomicExchange')):
            units.append(Unit('Aeu<%d>::%s on a number shared with other threads:' % (N, nm), shared_case(N, fn), 100))
        for fn, nm in (('uset', 'tryAtomicSet'), ('uexch', 'tryAtomicExchange'), ('usetself', 'tryAtomicSet with itself'), ('uexchself', 'tryAtomicExchange with itself')):
            units.append(Unit('Aeu<%d>::%s by one thread:' % (N, nm), seq(N, fn), 100))
        for fn, nm in (('sset', 'tryAtomicSet'), ('sexch', 'tryAtomicExchange')):
            for ss in (-1, 0, 1):
                for sv in (-1, 0, 1):
                    for fs in (sorted({1, 2, n}) if ss else [0]):
                        for fv in (sorted({1, 2, n}) if sv else [0]):
                            units.append(Unit('Aesi<%d>::%s by one thread, signs %d %d, %d and %d blocks:' % (N, nm, ss, sv, fs, fv), sseq(N, fn, ss, sv, fs, fv), 100))
    return mods, units
