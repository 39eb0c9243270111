"""C03: set_composition of both calculators is all-or-nothing and maps every gas to its slot."""
import time, math
import numpy as np
from engine.check import *
from engine.dag import FNode, BNode
from engine import fpz3
from .composition import Comp, X, CODE, abstract, spec_check, zob, codes, cond_of, split, candidates, fsum
import z3
TITLE = {'detail': 'Detail', 'gerg': 'Gerg2008'}

def obs(ck, which):
    cn = TITLE[which] + '::set_composition'; ck.contracts.append(cn); ck.contracts.append('Composition::check')
    t0 = time.time()
    o = havoc(ck.ctx.fresh(which))
    before = o.snapshot()
    c = Comp(ck.ctx, E=o.E, S=o.S); o.S = c.S
    r = o.call('set_composition', c.base)
    ck.ran(o.E); ck.noreports(o.E, cn + ': no panic or invalid access')
    c.S = o.S
    ck.ob(cn + ': the given composition is not changed', all(dag.same(a, var(x)) for a, x in zip(c.get(), X)), 'structural', '', time.time() - t0)
    after = o.snapshot()
    inv = {o.off['x%d' % i]: i for i in range(21)}
    # outcome: that of the check
    xs = [after[k][1] for k in inv]
    tr = abstract([q for q in codes(r).values() if q.__class__ is BNode] + [v for v in xs if v.__class__ is FNode]); s = tr.var('s')
    empty, bad = spec_check(s); T = z3.BoolVal(True)
    g = lambda v: tr.go(cond_of(r, v))
    zob(ck, cn + ': Empty exactly when the check says so', T, g(1) == empty, tr)
    zob(ck, cn + ': BadSum exactly when the check says so', T, g(2) == bad, tr)
    zob(ck, cn + ': Ok exactly when the check succeeds', T, g(0) == z3.And(z3.Not(empty), z3.Not(bad)), tr)
    ok = z3.And(z3.Not(empty), z3.Not(bad))
    for k, i in sorted(inv.items(), key=lambda q: q[1]):
        t = time.time(); v = after[k][1]
        good = all(dag.same(w, var(X[i])) for h, w in split(v, tr, ok))
        ck.ob('%s on success: %s slot holds the given %s' % (cn, GASES[i], GASES[i]), good, 'z3-fp', dag.fstr(v, 3), time.time() - t); t = time.time()
        kept = all(dag.same(w, before[k][1]) for h, w in split(v, tr, z3.Not(ok)))
        ck.ob('%s on failure: %s unchanged' % (cn, GASES[i]), kept, 'z3-fp', dag.fstr(v, 3), time.time() - t)
    pub = {v: k for k, v in o.off.items()}
    t = time.time()
    for k in before:
        if k in inv: continue
        if k in pub: ck.ob('%s: %s unchanged' % (cn, pub[k]), dag.same(after[k][1], before[k][1]), 'structural', dag.fstr(after[k][1], 3))
    # x[0] of GERG-2008 is unused; caches may be dropped, tables may not change
    ck.reach.append('%s: %d private cells of %d change' % (cn, sum(1 for k in before if k not in inv and not dag.same(after[k][1], before[k][1])), len(before)))

def run(ck):
    ck.cex = []
    ck.assumptions += ["the sum is the machine sum in the order the code adds"]
    for w in ('detail', 'gerg'): ck.attempt(TITLE[w] + '::set_composition', obs, ck, w)
    return ck.finish(find)

def find(ck, nat):
    cs = candidates(ck, nat, 1500)
    F = STATE + OUT + ['x%d' % i for i in range(21)]
    for which in ('detail', 'gerg'):
        base = [0.01 * (i + 1) for i in range(21)]; tot = sum(base); base = [q / tot for q in base]
        scripts = []
        for v in cs:
            scripts.append(dict(which=which, steps=[['new', 'a'], ['set', 'a', dict(x=base, **{f: 100.0 + i for i, f in enumerate(STATE + OUT)})], ['get', 'a', F], ['comp', 'check', v], ['setcomp', 'a', v], ['get', 'a', F]]))
        # a composition set after one that shares most components with it
        rng = np.random.default_rng(ck.seed); nice = [v for v in cs if all(0 <= q <= 1.0 for q in v) and abs(sum(v) - 1) < 0.008 and sum(1 for q in v if q) > 1]; near = []
        for v in nice[:400]:
            w = list(v)
            for _ in range(int(rng.integers(1, 5))):
                i = int(rng.integers(21)); q = rng.random()
                if q < .4: w[i] *= 1 + 10.0 ** -rng.uniform(1, 15)
                elif q < .7: w[i] += 10.0 ** -rng.uniform(3, 17)
                else: j = int(rng.integers(21)); w[i], w[j] = w[j], w[i]
            near.append(w)
            scripts.append(dict(which=which, steps=[['new', 'a'], ['set', 'a', dict(x=v, **{f: 100.0 + i for i, f in enumerate(STATE + OUT)})], ['get', 'a', F], ['comp', 'check', w], ['setcomp', 'a', w], ['get', 'a', F]]))
        # changes of two components at equal others, one of them large
        for v in nice[:150]:
            for i in range(21):
                for j in rng.choice(21, 3, replace=False):
                    w = list(v); w[i] += 1e-13; w[int(j)] = w[int(j)] * 0.9 + 1e-4; near.append(w)
                    scripts.append(dict(which=which, steps=[['new', 'a'], ['set', 'a', dict(x=v, **{f: 100.0 + i for i, f in enumerate(STATE + OUT)})], ['get', 'a', F], ['comp', 'check', w], ['setcomp', 'a', w], ['get', 'a', F]]))
        res = nat.run(scripts, until=time.time() + 120)
        for v, sc, r in zip(cs + near, scripts, res):
            if isinstance(r, dict): return dict(what='set_composition: %s' % r['crash'], script=sc)
            b, (chk, _), code, a = r
            if code != chk: return dict(what='%s::set_composition returns %s where the check returns %s' % (TITLE[which], CODE[code], CODE[chk]), script=sc)
            b = dict(zip(F, b)); a = dict(zip(F, a))
            for i in range(21): 
                if code == 0: b['x%d' % i] = v[i]
            for f in F:
                if not (a[f] == b[f] or (a[f] != a[f] and b[f] != b[f])):
                    return dict(what='%s::set_composition (%s): %s is %r, expected %r' % (TITLE[which], CODE[code], GASES[int(f[1:])] if f[0] == 'x' else f, a[f], b[f]), script=sc)
            s = fsum(v); one = sum(1 for q in v if q != 0) <= 1
            if one and not (s != s and code == 2) and code != (1 if abs(s) < 1e-10 else 2 if not abs(s - 1) <= 0.01 else 0):
                return dict(what='%s::set_composition returns %s for sum %r' % (TITLE[which], CODE[code], s), script=sc)
    return None
