"""Fidelity of the executor: the IR executed by engine/symex.py on concrete inputs, and the terms of
the symbolic execution evaluated at them, against the compiled library, bit for bit.
usage: python3-vt tools/selftest.py [n]"""
import sys, os, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(20000)
from engine.check import *
from engine.native import Native
from engine.search import Sampler
from engine.dag import evalf, FNode
from engine import dag
n = int(sys.argv[1]) if len(sys.argv) > 1 else 6
ck = Check('C05'); nat = Native(ck.ctx); F = STATE + OUT; bad = tot = 0
def eq(a, b): return dag.bits(float(a)) == dag.bits(float(b)) or (a != a and b != b)
for which in ('detail', 'gerg'):
    sym = {}
    for op in ('pressure', 'properties', 'molar_mass'):
        o = ck.ctx.fresh(which); o.set_state(x=symbols(), t=var('T'), d=var('D'), p=var('P')); r = o.call(op); sym[op] = ({f: o.get(f) for f in F}, r)
    S = Sampler(7, 400, xlo=0.0); S.rng.shuffle(idx := list(range(S.n)))
    for k in idx[:n]:
        x = S.x(k); T, D, P = (float(S.env[v][k]) for v in 'TDP')
        if k % 5 == 0: D = 0.0
        for op, args in [('pressure', ()), ('properties', ()), ('molar_mass', ()), ('density', () if which == 'detail' else (k % 3,))]:
            r = nat.run([dict(which=which, steps=[['new', 'a'], ['set', 'a', dict(x=x, t=T, d=D, p=P)], ['call', 'a', op] + list(args), ['get', 'a', F]])])[0]
            if isinstance(r, dict): print('native', r); bad += 1; continue
            native = dict(zip(F, r[1]))
            o = ck.ctx.fresh(which); o.set_state(x=x, t=T, d=D, p=P); o.call(op, *args)
            got = {f: o.get(f) for f in F}; tot += 1
            w = [f for f in F if not eq(got[f], native[f])]
            if w: bad += 1; print('concrete', which, op, w[:3], [(got[f], native[f]) for f in w[:3]])
            if op in sym:
                env = dict(T=T, D=D, P=P, **{'x%d' % i: x[i] for i in range(21)})
                fs = [f for f in F if sym[op][0][f].__class__ is FNode]
                v = dict(zip(fs, evalf([sym[op][0][f] for f in fs], env)))
                w = [f for f in fs if not eq(v[f], native[f])]; tot += 1
                if w: bad += 1; print('symbolic', which, op, w[:3], [(v[f], native[f]) for f in w[:3]])
nat.stop(); ck.ctx.close(); print('%d comparisons, %d differ' % (tot, bad)); sys.exit(1 if bad else 0)
