"""Inductive treatment of data-dependent loops: at a loop header the cells and registers the loop can
change (found by a dataflow fixpoint over the body) are replaced by arbitrary values satisfying a
template invariant; the body is interpreted once; the invariant is re-established at the back edge."""
import re, poly
from poly import K, ZERO, ONE, Poly
from engine import *

def dominators(f):
    d = getattr(f, '_dom', None)
    if d is not None: return d
    names = list(f.order); idx = {b: i for i, b in enumerate(names)}
    n = len(names); full = (1 << n) - 1
    pred = [[] for _ in names]
    for b in names:
        for x in f.blocks[b].succ: pred[idx[x]].append(idx[b])
    dom = [full] * n; dom[0] = 1
    ch = True
    while ch:
        ch = False
        for i in range(1, n):
            v = full
            for p in pred[i]: v &= dom[p]
            v |= 1 << i
            if v != dom[i]: dom[i] = v; ch = True
    f._dom = (idx, dom)
    heads = set()
    for b in names:
        for x in f.blocks[b].succ:
            if dom[idx[b]] >> idx[x] & 1: heads.add(x)
    f._heads = heads
    return f._dom

def is_latch(f, p, h):
    idx, dom = dominators(f)
    return bool(dom[idx[p]] >> idx[h] & 1)

class Act:
    pass

class Induct:
    """loop_hook: tmpl.start(e, f, act) -> True to use it; tmpl.back(e, f, act) at the back edge"""
    def __init__(s, tmpl, rx):
        s.t = tmpl; s.rx = re.compile(rx); s.active = {}; s.skip = False; s.trial = 0; s.used = 0

    def __call__(s, e, f, regs, bname, prev, stop):
        if s.skip: s.skip = False; return None
        if not s.rx.search(f.dem): return None
        dominators(f)
        if bname not in f._heads: return None
        key = (f.name, bname, len(e.stack))
        a = s.active.get(key)
        if prev is None and a is not None and not a.done: raise Undecided('loop header reached through a join')
        if prev is not None and is_latch(f, prev, bname):
            if a is None: return None
            if a.mode == 'trial':
                for d, v in a.regs.items():
                    if not same(regs.get(d, UNDEF), v): a.found.add(('reg', d))
                a.backs += 1
                return (None, None)
            if a.mode == 'off': return None
            a.cur = regs
            s.t.back(e, f, a)
            return (None, None)
        # first arrival: which cells and registers can the loop change?
        if not s.t.wants(e, f, bname): return None
        a = Act(); a.done = False; a.mode = 'trial'; a.found = set(); a.backs = 0; a.key = key
        s.active[key] = a
        phis = [ph.dst for ph in f.blocks[bname].phis]
        a.phity = {ph.dst: ph.ty for ph in f.blocks[bname].phis}
        base = e.st; nobj = e.nobj; s.trial += 1
        ub, e.ub = e.ub, False; nev = len(e.events)
        tr = e.trace_stores
        M = set()
        try:
            for it in range(8):
                st = base.fork(); e.st = st; r2 = dict(regs)
                s.havoc(e, M, r2, st, a)
                a.regs = {d: r2[d] for d in phis}
                e.trace_stores = []
                s.skip = True
                try: e.run(f, r2, bname, None, stop)
                except Dead: pass
                new = {('mem', o, off, sz) for o, off, sz, _ in e.trace_stores if o <= nobj} | a.found
                new = s.coalesce(e, base, new)
                if new <= M: break
                M |= new
            else: raise Undecided('loop effect fixpoint')
        finally:
            s.trial -= 1; e.ub = ub; del e.events[nev:]; e.trace_stores = tr; e.st = base
        if a.backs == 0:
            a.mode = 'off'; return None
        if s.trial:                      # inside another loop's effect analysis: any values
            a.mode = 'trial'; a.regs = {}
            e.st = base.fork(); s.havoc(e, M, regs, e.st, a)
            return None
        a.mode = 'check'; a.M = M; a.entry = {}
        for m in M:
            if m[0] == 'mem':
                try: a.entry[m] = e.load_bytes(Ptr(m[1], m[2]), m[3])
                except Undecided: a.entry[m] = UNDEF
            else: a.entry[m] = regs[m[1]]
        e.st = base.fork()
        a.vals = {}
        if not s.t.start(e, f, a):
            e.st = base; a.mode = 'off'; return None
        s.used += 1
        # install the template state
        for m, v in a.vals.items():
            if m[0] == 'mem': e.store_raw(m[1], m[2], m[3], v)
            else: regs[m[1]] = v
        a.cur = None
        return None

    def coalesce(e_, e, base, new):
        """whole-number cells: stores inside an object of up to 64 bytes count as a store to the object"""
        out = set()
        for m in new:
            if m[0] == 'mem' and isinstance(m[2], int) and m[3] != e.objs[m[1]].size and e.objs[m[1]].size in e_.t.sizes: out.add(('mem', m[1], 0, e.objs[m[1]].size))
            elif m[0] == 'mem' and not isinstance(m[2], int): raise Undecided('loop stores at a symbolic offset')
            else: out.add(m)
        return out

    def havoc(s, e, M, regs, st, a):
        for i, m in enumerate(sorted(M, key=str)):
            if m[0] == 'mem':
                e.store_raw(m[1], m[2], m[3], mk(poly.opaque('havoc', 0, (1 << (8 * m[3])) - 1, (m, 'trial')), 0, (1 << (8 * m[3])) - 1))
            else:
                old = regs[m[1]]
                if not isinstance(old, (int, V)) : raise Undecided('loop-carried register')
                w = a.phity[m[1]].n
                regs[m[1]] = mk(poly.opaque('havoc', 0, (1 << w) - 1, (m, 'trial')), 0, (1 << w) - 1)
