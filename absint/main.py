#!/usr/bin/env python3
"""check one property:  main.py C01 [quick|thorough]"""
import os, sys, time, json, importlib, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from concurrent.futures import ThreadPoolExecutor

PROPS = {}; META = {}
AI = 'abstract interpretation of the compiled IR (exact polynomial value domain, joins at post-dominators)'
def reg(pid, mod, note, technique=AI, level='proof', **kw):
    PROPS[pid] = (mod, kw); META[pid] = (technique, level, note)
reg('C01', 'uadd', 'all operand values symbolically abstracted at once for the listed precisions; every obligation is an exact identity modulo 2^N')
reg('C02', 'umul', 'all operand values per pair of significant-length classes (exhaustive partition) for the listed precisions')
reg("C03", "udiv", "exhaustive partition by dividend bit length and relation to the divisor; loop invariant remainder < divisor as a join template")
reg('C04', 'ubit', 'every result bit against the operand bits, operands as independent bit symbols')
reg('C05', 'ushift', 'every shift amount below N as its own class plus the class of all amounts of N and above')
reg('C06', 'ucmp', 'exhaustive partition of operand pairs by the first differing block')
reg('C07', 'uacc', 'every in-range index as its own class plus the class of all indices past the end')
reg('C08', 'ucount', 'exhaustive partition by the position of the most significant bit')
reg('C09', 'ucons', 'all values at once, every built-in type, a set of source and target precisions')
reg('C10', 'sadd', 'exhaustive partition by signs, significant lengths and first differing block')
reg('C11', 'smul', 'exhaustive partition by signs and significant lengths; built-in factors by 0, most negative value and width range')
reg("C12", "sdiv", "exhaustive partition by signs, magnitude relation and built-in divisor class; unsigned division by its verified contract")
reg('C13', 'scmp', 'exhaustive partition by signs, significant lengths, first differing block and built-in value class')
reg('C14', 'szero', 'inductive step for each public signed operation over the same exhaustive partitions')
reg('C15', 'scons', 'exhaustive partition by sign, significant length and built-in value class')
reg('C22', 'ugcd', 'gcd: Euclid loop treated by induction for all operands (inferred pair of cells, established, preserved, exit); lcm: all operands with gcd by that contract; plus symbolic families that give witnesses')
reg('C23', 'ubez', 'extended Euclid loop treated by induction for all operands (linear relations searched among the loop cells, all modulo 2^N); symbolic families give witnesses')
reg('C24', 'upowm', 'every bit length of the power with all its bits free, base and modulus free with (m-1)^2 < 2^N, for the listed precision pairs and both overloads; abstract residues with exponent polynomials')
reg('C25', 'usqrt', 'squareRoot: every bit length with all values of that length, Newton loop by induction; power2: every exponent below N as its own class and the rest as one; both number types')

EFF = 'interprocedural mod/ref and points-to effect analysis of the compiled IR'
reg('C27', 'ueff', 'every public operation and overload, call graph followed to the leaves; aliased forms by abstract interpretation over significant lengths and signs', EFF + ', with abstract interpretation for aliased operands', which='C27')
reg('C28', 'ueff', 'every public numeric operation and overload, call graph followed to the leaves', EFF, which='C28')

reg('C29', 'utypes', 'static_assert witnesses per precision pair and configuration, plus compile-fail programs', 'type-level static_assert and compile-fail witnesses checked by the compiler front end')

reg('C30', 'combo', 'the partitions of the value checks with in-range arguments, IR compiled with AESI_UNSAFE', which='C30')

reg('C31', 'combo', 'the partitions of the value checks, IR compiled with PRE_CPP_20 and with the CUDA configuration against stand-in cuda/std headers', which='C31')

reg('C16', 'uparse', 'texts of every digit count up to three past the capacity, every digit free, all prefixes, entry forms and both character types')
reg('C17', 'ugets', 'every digit count with all digits free, exactly fitting and all larger buffers, both number and character types', which='C17')
reg('C18', 'ugets', 'every digit count against every buffer size', which='C18')
reg('C19', 'ustream', 'every digit count with all digits free, every basefield, base, case and adjustment combination, other flags and fill free', which='C19')
reg('C20', 'ustream', 'the same partition; flags word and fill cell compared symbolically', which='C20')
reg('C21', 'ubin', 'all block values free, every number of blocks the sink or source offers')

reg('C26', 'combo', 'the partitions of the value and text checks; every access, shift, signed operation, division, assertion and function end met in them', which='C26')
reg('C33', 'ugmp', 'mpz classes by sign and bit length up to the precision and sampled lengths above it, all bits free; libgmp leaves by models')
reg('C35', 'uatom', 'interleavings abstracted thread-modularly: shared blocks arbitrary at every access; device configuration against stand-in headers')
reg('C32', 'combo', 'iteration bound on every path of the partitions of the value and text checks; strictly decreasing quantity for the Euclid and Newton loops', which='C32')

def load_findings(pid):
    out = []
    try:
        for ln in open(core.VERIF + '/KNOWN_FINDINGS.txt'):
            m = re.match(r'finding: property=(\S+) match="([^"]*)" (.*)', ln)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3).strip()))
    except FileNotFoundError: pass
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    modname, kw = PROPS[pid]
    P = importlib.import_module('props.' + modname)
    mods_src, units = P.build(tier, **kw)
    if os.environ.get('ABSINT_RX'): units = [u for u in units if re.search(os.environ['ABSINT_RX'], u.name)]     # debugging aid
    compile_err = {}
    def comp(k):
        try: return k, core.compile_ir(*mods_src[k])
        except core.CompileError as e:
            compile_err[k] = str(e); return k, None
    with ThreadPoolExecutor(8) as ex: mods = dict(ex.map(comp, list(mods_src)))
    if compile_err:
        for k, v in list(compile_err.items())[:3]: print('ANALYSIS-BROKEN property=%s harness %s does not compile against /repo:\n%s' % (pid, k, v[:1500]))
        sys.exit(2)
    t1 = time.time()
    fnd = load_findings(pid)
    budget = float(os.environ.get('ABSINT_BUDGET', '660' if tier == 'quick' else '1e6')) - (t1 - t0)
    res = core.run_units(units, mods, seed, tier, budget=budget, known=lambda o: any(p in o[0] + ' | ' + o[2] for p, _ in fnd))
    obls = []; funcs = set(); contracts = set(); calls = merges = irc = atoms = 0; hits = set()
    for r in res:
        obls += r[1]; funcs |= set(r[2]); calls += r[3]; merges += r[4]; irc += r[5]; contracts |= set(r[6]); atoms += r[8]; hits |= set(r[9])
    extra = {}
    if hasattr(P, 'finish'):
        o2, extra = P.finish(tier, mods, **kw)
        obls += o2
    obls.sort()
    by = {}
    for o in obls: by.setdefault(o[1], []).append(o)
    proved = by.get('proved', []); und = by.get('undecided', []); ref = by.get('refuted', []); err = by.get('error', [])
    findings = load_findings(pid)
    known = {}; viol = []
    for o in ref:
        for pat, txt in findings:
            if pat in o[0] + ' | ' + o[2]:
                known.setdefault(txt, []).append(o); break
        else: viol.append(o)
    for txt in known: print('KNOWN-FINDING: property=%s %s (%d obligations)' % (pid, txt, len(known[txt])))
    rdir = core.VERIF + '/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    rp = '%s/%s.txt' % (rdir, pid)
    wall = time.time() - t0
    samples = [o[0] for o in proved[:: max(1, len(proved) // 6)]][:6]
    cov = {
        'obligations': len(obls), 'discharged': len(proved),
        'checker_cmd': 'python3 absint/main.py %s %s' % (pid, tier),
        'trusted_base': ['clang 18 front end and opt sroa (IR of /repo/include headers)', 'absint transfer functions (llir/poly/engine)', 'harness and specification in absint/props/%s.py' % modname],
        'refuted': len(ref), 'undecided': len(und),
        'analysis_units': len(units), 'ir_modules': len(mods), 'functions_analysed': len(funcs),
        'function_list': sorted(re.sub(r'\(.*', '', f) for f in funcs if 'Ae' in f)[:60],
        'call_sites_followed': calls, 'joins': merges, 'ir_safety_checks': irc, 'atoms': atoms,
        'contracts_used': sorted(contracts)[:40],
        'rule': getattr(P, 'RULES', {}).get(pid) or getattr(P, 'RULE', (P.__doc__ or '').strip()),
        'sample_obligations': samples,
        'undecided_list': [o[0] + ': ' + o[2][:160] for o in und[:25]],
        'explanation': 'abstract interpretation of the IR of the current headers over exhaustive input classes; each obligation is a residual polynomial shown zero (or a safety condition shown unreachable)',
    }
    cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=META[pid][1], coverage=cov, wall_s=round(wall, 2), violations=len(viol))
    if findings: ev['known_findings'] = [t for _, t in findings]
    with open(core.VERIF + '/evidence/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1)
    print('property=%s tier=%s units=%d obligations=%d proved=%d undecided=%d refuted=%d (known %d) functions=%d compile=%.1fs total=%.1fs' % (
        pid, tier, len(units), len(obls), len(proved), len(und), len(ref), len(ref) - len(viol), len(funcs), t1 - t0, wall))
    for o in und[:8]: print('UNDECIDED', o[0], '|', o[2][:200])
    if err:
        for o in err[:3]: print('ANALYSIS-ERROR', o[0], o[2][-700:])
    if viol:
        with open(rp, 'w') as f:
            for o in viol: f.write('obligation: %s\nwhat: %s\nwhere: %s\nwitness: %s\n\n' % (o[0], o[2], o[3], o[4]))
        for o in viol[:6]: print('  at %s: %s: %s | witness %s' % (o[3], o[0], o[2][:300], o[4][:200]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    if os.path.exists(rp): os.remove(rp)
    if err or not proved: 
        print('ANALYSIS-BROKEN property=%s' % pid)
        sys.exit(2)
    sys.exit(0)

if __name__ == '__main__':
    main()
