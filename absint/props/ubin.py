"""Binary writing and reading."""
from props.util import *
import iomodel
RULE = ('every block a free symbol; the bytes handed to the stream must be the bytes of the blocks in the order of the mode, exactly N/8 of them, for every number of blocks the sink accepts; '
        'reading from a source with every number of complete blocks available must give those blocks and zero for the rest, whatever the target held')
def source(N):
    return HDR + '''
#include <istream>
#include <ostream>
static constexpr std::size_t N = %d;
extern "C" void w_be(std::ostream& os, const u32* pa) { Aeu<N> a; ld(a, pa); a.writeBinary(os, true); }
extern "C" void w_le(std::ostream& os, const u32* pa) { Aeu<N> a; ld(a, pa); a.writeBinary(os, false); }
extern "C" void w_df(std::ostream& os, const u32* pa) { Aeu<N> a; ld(a, pa); a.writeBinary(os); }
extern "C" void r_be(u32* po, std::istream& is, const u32* pa) { Aeu<N> a; ld(a, pa); a.readBinary(is, true); st(po, a); }
extern "C" void r_le(u32* po, std::istream& is, const u32* pa) { Aeu<N> a; ld(a, pa); a.readBinary(is, false); st(po, a); }
extern "C" void r_df(u32* po, std::istream& is, const u32* pa) { Aeu<N> a; ld(a, pa); a.readBinary(is); st(po, a); }
extern "C" void t_be(u32* po, std::ostream& os, std::istream& is, const u32* pa) { Aeu<N> a; ld(a, pa); a.writeBinary(os, true); Aeu<N> b = 5u; b.readBinary(is, true); st(po, b); }
extern "C" void t_le(u32* po, std::ostream& os, std::istream& is, const u32* pa) { Aeu<N> a; ld(a, pa); a.writeBinary(os, false); Aeu<N> b = 5u; b.readBinary(is, false); st(po, b); }
''' % N

def bytes_of(e, blocks, mode):
    """expected byte sequence"""
    out = []
    for v in (reversed(blocks) if mode != 'le' else blocks): out += [e.bits(v, 8 * i, 8 * i + 8) for i in range(4)]
    return out

def wcase(N, mode, room, state=0):
    n = N // 32
    def run(c):
        e = c.engine('b%d' % N); A = c.blocks('a', n)
        s = iomodel.Stream(c, e, 'o', room=room, state=state, cap=max(1024, 8 * n))
        st, _ = c.call(e, 'w_' + mode, [s.ptr(), c.arr(e, 'a', A, const=True)]); c.ub(e)
        if st != 'ok': return
        want = bytes_of(e, A, mode)
        if room is not None: want = want[:4 * room]
        if state: want = []
        got = s.chars()
        if len(got) < len(want) or (room is None and len(got) != len(want)) or (state and got):
            c.note('bytes written', 'refuted', '%d bytes written, %d required' % (len(got), len(want)), env='any value'); return
        if room is not None and len(got) != len(want): c.note('bytes written', 'undecided', 'output granularity'); return
        for i, (g, w) in enumerate(zip(got, want)):
            if not c.eq_mod('byte %d of %d' % (i, len(want)), g, w): break
        if not want: c.note('no bytes written', 'proved')
    return run

def rcase(N, mode, avail, state=0):
    n = N // 32
    def run(c):
        e = c.engine('b%d' % N); old = c.blocks('old', n); A = c.blocks('a', avail)
        data = []
        for v in A: data += [e.bits(v, 8 * i, 8 * i + 8) for i in range(4)]
        s = iomodel.Stream(c, e, 'i', data=data, state=state, cap=max(1024, 8 * n))
        po = c.out(e, 'o', 4 * n)
        st, _ = c.call(e, 'r_' + mode, [po, s.ptr(), c.arr(e, 'old', old, const=True)]); c.ub(e)
        if st != 'ok': return
        for i in range(n):
            j = i if mode == 'le' else n - 1 - i
            want = A[j] if j < avail and not state else 0
            c.eq_mod('block %d' % i, e.load_bytes(e.padd(po, 4 * i), 4), want)
        if not state:
            p = s.getpos()
            c.note('blocks consumed from the stream', 'proved' if p == 4 * min(avail, n) else 'refuted', '%d bytes consumed' % p)
    return run

def build(tier):
    mods = {}; units = []
    for N in ([64, 96, 128, 160, 256, 512, WIDE] if tier == 'quick' else [64, 96, 128, 160, 192, 256, 512, 1024, 2048, WIDE]):
        n = N // 32; mods['b%d' % N] = (source(N), [])
        for mode, nm in (('be', 'big-endian'), ('le', 'little-endian'), ('df', 'default')):
            units.append(Unit('Aeu<%d>::writeBinary %s' % (N, nm), wcase(N, mode, None), 100))
            units.append(Unit('Aeu<%d>::writeBinary %s to a failed stream' % (N, nm), wcase(N, mode, None, 1), 100))
            for k in (thin(n, range(n)) if N == WIDE else range(n)): units.append(Unit('Aeu<%d>::writeBinary %s to a sink of %d blocks' % (N, nm, k), wcase(N, mode, k), 100))
            for k in (thin(n, range(n + 1)) if N == WIDE else range(n + 2)): units.append(Unit('Aeu<%d>::readBinary %s with %d blocks available' % (N, nm, k), rcase(N, mode, k), 100))
            for s in (1, 2, 4): units.append(Unit('Aeu<%d>::readBinary %s from a stream in state %d' % (N, nm, s), rcase(N, mode, n, s), 100))
    return mods, units
