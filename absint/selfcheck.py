#!/usr/bin/env python3
"""setup: confirm the tools the checks need are here and the analyser agrees with itself on a tiny program"""
import os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, poly
for t in ('clang++-18', 'opt-18', 'c++filt'):
    r = subprocess.run([t, '--version'], stdout=subprocess.DEVNULL)
    if r.returncode: print('missing', t); sys.exit(2)
m = core.compile_ir('extern "C" unsigned f(unsigned a, unsigned b) { return a > b ? a - b : b - a; }')
c = core.Ctx('self', {'m': m}); e = c.engine('m')
a = c.sym('a'); b = c.sym('b')
st, r = c.call(e, 'f', [a, b])
g = poly.ge(a.p - b.p)
c.eq_mod('abs', r, g * (a.p - b.p) + (poly.ONE - g) * (b.p - a.p))
c.eq_mod('wrong', r, a.p - b.p)
assert [o.status for o in c.obls] == ['proved', 'refuted'], [o.status for o in c.obls]
os.makedirs(core.VERIF + '/evidence', exist_ok=True)
print('ok')
