"""Check framework: harness compilation, analysis units, obligations, verdicts, evidence."""
import os, sys, re, subprocess, tempfile, time, json, random, hashlib, signal, traceback, threading, multiprocessing, shutil
sys.setrecursionlimit(200000)
import llir, poly, engine, iomodel
from engine import Engine, V, PU, Ptr, UNDEF, Undecided, Dead, mk, pof, lo_, hi_, State, Agg, PtrSel
from poly import Poly, K, ZERO, ONE

REPO = os.environ.get('ABSINT_REPO', '/repo')
STOP = float(os.environ.get('ABSINT_STOP', '60'))      # how long a check keeps looking for more after its first refutation
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = REPO + '/include'
BASE_FLAGS = ['-std=gnu++20', '-O1', '-Xclang', '-disable-llvm-passes', '-g1', '-w', '-I' + INC]

class CompileError(Exception):
    pass

def run_cmd(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def compile_ir(src, flags=(), sroa=True):
    """C++ text -> parsed LLVM IR module of the current /repo headers"""
    d = tempfile.mkdtemp(prefix='absint_')
    try:
        cpp = d + '/h.cpp'; ll = d + '/h.ll'; ll2 = d + '/h2.ll'
        with open(cpp, 'w') as f: f.write(src)
        r = run_cmd(['clang++-18'] + BASE_FLAGS + list(flags) + ['-S', '-emit-llvm', '-o', ll, cpp])
        if r.returncode: raise CompileError(r.stderr[-4000:])
        if sroa:
            r = run_cmd(['opt-18', '-S', '-passes=function(sroa)', '-o', ll2, ll])
            if r.returncode: raise CompileError(r.stderr[-2000:])
            ll = ll2
        with open(ll) as f: text = f.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = llir.parse_module(text)
    m.source = src; m.flags = list(flags)
    return m

# ---------------------------------------------------------------- witness search
SPECIAL = lambda lo, hi: [x for x in (lo, lo + 1, lo + 2, hi, hi - 1, hi - 2, (lo + hi) // 2, (lo + hi) // 2 + 1, (lo + hi + 1) // 2 - 1, 1 << 16, (1 << 16) - 1, 1 << 31, (1 << 31) - 1, (1<<31)+1) if lo <= x <= hi]

def rand_env(ids, rng, mode):
    env = {}
    if mode == 7:
        for i in ids:
            A = poly.ATOMS[i]; v = 1 << rng.randrange(32)
            env[i] = v if A.lo <= v <= A.hi and (rng.random() < 0.3 or A.lo > 0) else A.lo
        return env
    for i in ids:
        A = poly.ATOMS[i]
        lo, hi = A.lo, A.hi
        r = rng.random()
        if mode == 0: env[i] = rng.randint(lo, hi)
        elif mode == 1: env[i] = rng.choice((lo, hi))
        elif mode == 2: env[i] = rng.choice(SPECIAL(lo, hi))
        elif mode == 3: env[i] = hi if r < 0.85 else rng.choice(SPECIAL(lo, hi))
        elif mode == 4: env[i] = lo if r < 0.8 else rng.choice(SPECIAL(lo, hi))
        elif mode == 5: env[i] = rng.randint(lo, min(hi, lo + 7))
        else: env[i] = rng.randint(lo, hi) if r < 0.5 else rng.choice(SPECIAL(lo, hi))
    return env

def search(pred_polys, good, seed=1, tries=1500, budget=6.0, pre=None):
    """find an assignment of input symbols, inside the class, with good(evaluator) true.
    pred_polys: polynomials whose atoms steer the search."""
    facts = list(poly.CLASS_FACTS)
    allp = list(pred_polys) + facts
    ids = sorted(poly.syms_of(allp))
    if any(poly.ATOMS[i].kind == 'opq' for i in poly.syms_of(pred_polys)): return None
    ges = [a for a in poly.atoms_of(allp) if poly.ATOMS[a].kind in ('ge', 'floor')]
    rng = random.Random(seed)
    t0 = time.time()
    def evaluate(env):
        memo = {}
        try:
            for f in facts:
                if poly.evalp(f, env, memo) < 0: return None
            return good(lambda p: poly.evalp(p, env, memo))
        except poly.Undef: return None
    n = 0
    while n < tries and time.time() - t0 < budget:
        n += 1
        env = rand_env(ids, rng, n % 8)
        if pre: pre(env, rng)
        if evaluate(env): return env
        # steer: push randomly chosen thresholds to their edge by moving one linear symbol
        for f in facts:
            fix_fact(f, env, rng)
        for _ in range(6):
            if not ges: break
            a = poly.ATOMS[rng.choice(ges)]
            steer(a, env, rng)
            for f in facts: fix_fact(f, env, rng)
            if evaluate(env): return env
    return None

def fix_fact(f, env, rng):
    try:
        v = poly.evalp(f, env, {})
    except poly.Undef: return
    if v >= 0: return
    lin = [(m[0], c) for m, c in f.d.items() if len(m) == 1 and m[0] in env]
    rng.shuffle(lin)
    for a, c in lin:
        A = poly.ATOMS[a]
        need = (-v + abs(c) - 1) // abs(c)
        nv = env[a] + need if c > 0 else env[a] - need
        if A.lo <= nv <= A.hi: env[a] = nv; return
        nv = A.hi if c > 0 else A.lo
        v += c * (nv - env[a]); env[a] = nv
        if v >= 0: return

def steer(a, env, rng):
    q = a.a
    try: cur = poly.evalp(q, env, {})
    except poly.Undef: return
    if a.kind == 'ge': target = a.b - rng.choice((0, 1))
    else:
        k = cur // a.b
        target = a.b * k + rng.choice((0, a.b - 1, a.b))
    lin = []
    for m, c in q.d.items():
        for x in m:
            if poly.ATOMS[x].kind == 'sym' and x in env:
                lin.append(x)
    rng.shuffle(lin)
    for x in lin[:4]:
        # derivative by finite difference
        A = poly.ATOMS[x]
        old = env[x]
        env[x] = old + 1 if old < A.hi else old - 1
        try: nv = poly.evalp(q, env, {})
        except poly.Undef: env[x] = old; continue
        dlt = (nv - cur) * (1 if old < A.hi else -1)
        env[x] = old
        if dlt == 0: continue
        step = (target - cur) // dlt
        t = old + step
        if A.lo <= t <= A.hi:
            env[x] = t; return
        env[x] = A.lo if t < A.lo else A.hi
        cur = cur + dlt * (env[x] - old)

def env_str(env):
    out = []
    for i, v in sorted(env.items()):
        out.append('%s=%s' % (poly.ATOMS[i].name, hex(v) if v > 9 else v))
    return ', '.join(out[:80])

# ---------------------------------------------------------------- obligations
class Obl:
    __slots__ = ('name', 'status', 'detail', 'where', 'env', 'kind')
    def __init__(s, name, status, detail='', where='', env='', kind='value'):
        s.name = name; s.status = status; s.detail = detail; s.where = where; s.env = env; s.kind = kind

def short(dem):
    import re
    d = dem
    while True:
        n = re.sub(r'\([^()]*\)(?=.*)', '', d, count=1) if d.count('(') > 1 or d.endswith(')') else d
        if n == d: break
        d = n
    return d.strip()

class Timeout(Exception):
    pass

class Unit:
    """one analysis unit executed in a worker process"""
    def __init__(u, name, fn, limit=120):
        u.name = name; u.fn = fn; u.limit = limit

class Ctx:
    """handed to a unit function"""
    debug = bool(os.environ.get("ABSINT_DEBUG"))
    def __init__(c, name, mods, seed=1, tier='quick'):
        c.name = name; c.mods = mods; c.obls = []; c.seed = seed; c.tier = tier
        c.functions = set(); c.calls = 0; c.merges = 0; c.ir_checks = 0; c.contracts = set()
        c.nprove = 0; c.last = None
        c.hits = set(); c.loops = set(); c.maxloop = c.backs = 0; c.only = None
        ns = [int(x) for x in re.findall(r'<(\d+)', name)]
        c.looplimit = 4 * max(ns) + 64 if ns else None

    def fresh(c):
        poly.reset()

    def engine(c, mod, contracts=None, models=None, **kw):
        m = c.mods[mod] if isinstance(mod, str) else mod
        e = Engine(m, contracts, iomodel.BASE if models is None else models, **kw)
        e.st = State(); e.loop_limit = c.looplimit
        return e

    # ---- inputs
    def sym(c, name, lo=0, hi=0xffffffff):
        p = poly.sym(name, lo, hi)
        return mk(p, lo, hi)

    def blocks(c, name, n, filled=None):
        """n 32-bit block symbols; filled=k: exactly k significant blocks"""
        out = []
        for i in range(n):
            if filled is not None and i >= filled: out.append(0)
            elif filled is not None and i == filled - 1: out.append(c.sym('%s%d' % (name, i), 1))
            else: out.append(c.sym('%s%d' % (name, i)))
        return out

    def arr(c, e, name, vals, size=4, kind='param', const=False):
        o = e.new_obj(name, size * len(vals), kind, False)
        cells = e.st.mem.wcells(o)
        for i, v in enumerate(vals):
            if v is not None: cells[i * size] = (size, v)
        e.objs[o].const = const
        return Ptr(o, 0)

    def out(c, e, name, nbytes):
        return Ptr(e.new_obj(name, nbytes, 'out'), 0)

    def read(c, e, p, n, size=4):
        return [e.load_bytes(e.padd(p, i * size), size) for i in range(n)]

    def whole(c, e, p, nbytes):
        return e.load_bytes(p, nbytes)

    # ---- running
    def call(c, e, fn, args, obl=''):
        """run the harness function; None when undecided or dead; records undecided"""
        name = '@' + fn; c.last = e
        if name not in e.m.funcs: raise RuntimeError('harness has no function ' + fn)
        try:
            r = e.call(name, args)
            return ('ok', r)
        except Dead:
            return ('dead', None)
        except (Undecided, poly.Limit) as ex:
            if c.debug: traceback.print_exc()
            w = e.where()
            c.obls.append(Obl('%s %s' % (c.name, obl), 'undecided', '%s (at %s)' % (ex, w)))
            c.collect(e)
            return ('undecided', None)

    def collect(c, e):
        c.loops |= e.nloops; c.maxloop = max(c.maxloop, e.maxloop); c.backs += e.nback
        c.functions |= e.analysed; c.calls += e.callsites; c.merges += e.merges; c.ir_checks += e.obl; c.contracts |= e.uses_contract

    # ---- verdicts
    def ub(c, e, obl='', ignore=(), pre=None):
        """undefined-behaviour obligations raised during a run"""
        c.collect(e)
        bad = False
        for ev in e.events:
            if ev.kind in ignore: continue
            if c.only and (c.only == 'loop') != (ev.kind == 'loop bound'): continue
            conds = ev.conds + ([ev.cond] if not (ev.cond.is_const()) else [])
            nm = '%s %s: no %s' % (c.name, obl, ev.kind)
            if any(x.opaque() for x in conds):
                c.obls.append(Obl(nm, 'undecided', 'possible %s at %s (opaque)' % (ev.kind, ev.where), kind='ub')); continue
            env = {} if not conds and not poly.CLASS_FACTS else search(conds, lambda ev_: all(ev_(x) == 1 for x in conds), c.seed, pre=pre)
            if env is None:
                c.obls.append(Obl(nm, 'undecided', 'possible %s at %s, no witness in class' % (ev.kind, ev.where), kind='ub'))
            else:
                bad = True
                c.obls.append(Obl(nm, 'refuted', '%s: %s; call path %s' % (ev.kind, ev.detail, ' > '.join(ev.stack[-4:])), ev.where, env_str(env), kind=c.only or 'ub'))
        if c.only == 'loop' and not any(ev.kind == 'loop bound' for ev in e.events):
            c.obls.append(Obl('%s %s: every loop activation ends within %d iterations (at most %d met)' % (c.name, obl, e.loop_limit, e.maxloop), 'proved', kind='loop'))
        elif not e.events:
            c.obls.append(Obl('%s %s: no undefined behaviour on any path' % (c.name, obl), 'proved', kind='ub'))
        return bad

    def site(c):
        """the library functions the analysed harness calls, with their source lines"""
        e = c.last
        if e is None: return ''
        out = []
        for f in e.entries.values():
            l = e.m.fnloc(f)
            if l.startswith('Ae'): out.append('%s %s' % (l, short(f.dem)))
        pri = [x for x in out if not any(k in x for k in ('::setBlock', '::getBlock', '::Aeu()', '::Aesi()'))]
        return '; '.join((pri or out)[:4])

    def eq_mod(c, name, got, spec, N=None, where='', pre=None, guard=None):
        """obligation: got == spec (mod 2^N when N), for every input of the class"""
        nm = '%s %s' % (c.name, name)
        c.nprove += 1
        if got is UNDEF:
            c.obls.append(Obl(nm, 'refuted', 'result is uninitialised / undefined', where or c.site(), kind='ub')); return False
        if isinstance(got, PU):
            env = search([got.c], lambda ev: ev(got.c) == 0, c.seed, pre=pre)
            if env is not None: c.obls.append(Obl(nm, 'refuted', 'result is uninitialised on some inputs', where or c.site(), env_str(env), 'ub')); return False
            got = got.v
            if not isinstance(got, (int, V)): c.obls.append(Obl(nm, 'undecided', 'result may be uninitialised')); return None
        if not isinstance(got, (int, V)):
            if c.only: return None
            c.obls.append(Obl(nm, 'undecided', 'result is not an integer')); return None
        if c.only: return True
        r = pof(got) - poly.aspoly(spec if isinstance(spec, (int, Poly)) else pof(spec))
        return c.zero(nm, r, N, where, pre, got, spec, guard)

    def zero(c, nm, r, N, where='', pre=None, got=None, spec=None, guard=None):
        if c.only: return True
        M = (1 << N) if N else None
        def isz(p):
            if not p.d: return True
            if M is not None and all(k % M == 0 for k in p.d.values()): return True
            return False
        def redm(p):
            if M is None: return p
            d = {}
            for m, k in p.d.items():
                k %= M
                if k: d[m] = k if k <= M // 2 else k - M
            return Poly(d)
        r = redm(r)
        if isz(r):
            c.obls.append(Obl(nm, 'proved')); return True
        s = c.splitzero(r, isz, redm, 0, [], [0])
        if s:
            c.obls.append(Obl(nm, 'proved', 'by case split')); return True
        if r.opaque():
            c.obls.append(Obl(nm, 'undecided', 'residual depends on an abstracted value: %s' % poly.show(r, 6), where)); return None
        def good(ev):
            if guard is not None and ev(guard) != 1: return False
            v = ev(r)
            return v % M != 0 if M else v != 0
        env = search([r], good, c.seed, pre=pre)
        if env is None:
            c.obls.append(Obl(nm, 'undecided', 'residual not shown zero and no counterexample: %s' % poly.show(r, 8), where)); return None
        rg = random.Random(5)
        for i in poly.syms_of([pof(x) for x in (got, spec) if isinstance(x, V)] + [x for x in (spec,) if isinstance(x, Poly)]):
            if i not in env: env[i] = rg.randint(poly.ATOMS[i].lo, poly.ATOMS[i].hi)
        memo = {}
        gv = poly.evalp(pof(got), env, memo) if got is not None else poly.evalp(r, env, memo)
        sv = poly.evalp(poly.aspoly(spec if isinstance(spec, (int, Poly)) else pof(spec)), env, memo) if spec is not None else 0
        if M: gv %= M; sv %= M
        c.obls.append(Obl(nm, 'refuted', 'computed %s, property requires %s' % (hex(gv), hex(sv)), where or c.site(), env_str(env)))
        return False

    def splitzero(c, r, isz, redm, depth, facts, cnt):
        """case split on threshold atoms of the residual"""
        if isz(r): return True
        cnt[0] += 1
        if depth > 12 or cnt[0] > 300 or len(r.d) > 1500: return False
        cand = {}
        for m, k in r.d.items():
            for a in m:
                A = poly.ATOMS[a]
                if A.kind == 'ge' or (A.lo == 0 and A.hi == 1 and A.kind == 'sym'): cand[a] = cand.get(a, 0) + 1
        if not cand:
            return False
        # contradiction in facts?
        for a in sorted(cand, key=lambda x: -cand[x])[:1]:
            A = poly.ATOMS[a]
            if A.kind == 'sym':
                for val in (1, 0):
                    if not c.splitzero(redm(poly.subst_deep(r, {a: K(val)})), isz, redm, depth + 1, [poly.subst_deep(f, {a: K(val)}) for f in facts], cnt): return False
                return True
            for val in (1, 0):
                f = (A.a - A.b) if val else (K(A.b - 1) - A.a)
                fs = facts + [f]
                if poly.prove_nonneg(-f - 1, facts + poly.CLASS_FACTS): continue     # impossible arm
                amap = {a: K(val)}
                for b in cand:
                    if b == a: continue
                    B = poly.ATOMS[b]
                    if B.kind != 'ge': continue
                    if poly.prove_nonneg(B.a - B.b, fs + poly.CLASS_FACTS, 2): amap[b] = ONE
                    elif poly.prove_nonneg(K(B.b - 1) - B.a, fs + poly.CLASS_FACTS, 2): amap[b] = ZERO
                r2 = redm(poly.subst(r, amap))
                # equality consequences: A.a == A.b-1 .. when both bounds meet are handled by facts only
                if not isz(r2):
                    r2 = c.use_equalities(r2, fs, isz, redm)
                if not c.splitzero(r2, isz, redm, depth + 1, fs, cnt): return False
            return True
        return False

    def use_equalities(c, r, facts, isz, redm):
        """if facts pin q == const (q>=t and q<=t), eliminate one linear symbol of q"""
        for i, f in enumerate(facts):
            for g in facts[:i]:
                if (f + g).d == {} :          # f >= 0 and -f >= 0
                    lin = [(m, k) for m, k in f.d.items() if len(m) == 1 and abs(k) == 1]
                    if lin:
                        m, k = max(lin)
                        expr = (Poly({m: 1}) * k - f) * k      # symbol = ...
                        r = redm(poly.subst(r, {m[0]: expr}))
        return r

    def holds(c, name, cond, where='', pre=None):
        """obligation: 0/1 value is 1 on the whole class"""
        return c.eq_mod(name, cond, 1, None, where, pre)

    def note(c, name, status, detail='', where='', env='', kind='value'):
        if c.only and kind != c.only: return
        c.obls.append(Obl('%s %s' % (c.name, name), status, detail, where or (c.site() if status == 'refuted' else ''), env, kind))

# ---------------------------------------------------------------- running a property
_G = {}
def _worker(i):
    u = _G['units'][i]
    res = {}
    def go():
        c = Ctx(u.name, _G['mods'], _G['seed'], _G['tier'])
        t0 = time.time()
        try:
            poly.reset()
            u.fn(c)
        except Timeout:
            c.obls.append(Obl(u.name, 'undecided', 'time limit'))
        except (Undecided, poly.Limit, engine.Dead) as ex:
            c.obls.append(Obl(u.name, 'undecided', '%s %s' % (type(ex).__name__, ex)))
        except RecursionError:
            c.obls.append(Obl(u.name, 'undecided', 'recursion limit'))
        except Exception as ex:
            tb = traceback.format_exc()
            c.obls.append(Obl(u.name, 'error', tb[-1500:]))
        res['r'] = (i, [(o.name, o.status, o.detail, o.where, o.env, o.kind) for o in c.obls], sorted(c.functions), c.calls, c.merges, c.ir_checks, sorted(c.contracts), time.time() - t0, len(poly.ATOMS), sorted(c.hits))
    def onalarm(*a): raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, u.limit)
    try:
        go()
    except Timeout:
        res['r'] = (i, [(u.name, 'undecided', 'time limit', '', '', 'value')], [], 0, 0, 0, [], u.limit, 0, [])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return res['r']

def run_units(units, mods, seed, tier, jobs=None, budget=10 ** 6, known=lambda o: False):
    _G['units'] = units; _G['mods'] = mods; _G['seed'] = seed; _G['tier'] = tier
    jobs = jobs or int(os.environ.get('ABSINT_JOBS', '8'))
    if jobs == 1: return [_worker(i) for i in range(len(units))]
    import resource
    try: resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception: pass
    ctx = multiprocessing.get_context('fork')
    t0 = time.time(); res = []; done = set(); bad = False
    pool = ctx.Pool(jobs, maxtasksperchild=40)
    try:
        it = pool.imap_unordered(_worker, range(len(units)), chunksize=1)
        while True:
            left = (budget if not bad else min(budget, bad)) - (time.time() - t0)
            try: r = it.next(timeout=max(left, 0.01))
            except StopIteration: break
            except multiprocessing.TimeoutError: break
            res.append(r); done.add(r[0])
            if any(o[1] == 'refuted' and not known(o) for o in r[1]): bad = bad or max(STOP, time.time() - t0 + STOP / 3)
    finally:
        pool.terminate(); pool.join()
    for i, u in enumerate(units):
        if i not in done: res.append((i, [(u.name, 'undecided', 'time budget of the check', '', '', 'value')], [], 0, 0, 0, [], 0, 0, []))
    return res
