"""C17: calculations leave their inputs alone (frame conditions of every calculation)."""
import time, math
import numpy as np
from engine.check import *
from engine.dag import FNode, BNode
from .dens import *
from .composition import Comp
XF = ['x%d' % i for i in range(21)]

def frame(ck, cn, o, b, a, may, t, ints=True):
    """public cells outside `may` keep their value (the same node, on an arbitrary object)"""
    for f, k in o.off.items():
        if f in may: continue
        same = dag.same(b[k][1], a[k][1])
        ck.ob('%s does not change %s' % (cn, f if f[0] != 'x' or f in OUT else 'the mole fraction of ' + GASES[int(f[1:])]), same, 'structural', '' if same else dag.fstr(a[k][1], 3), t / 40)
        if not same and a[k][1].__class__ is FNode: ck.hints.append(a[k][1])

MAY = {'pressure': ['z'], 'molar_mass': ['mm'], 'properties': OUT + ['p']}

def one(ck, which):
    cn = TITLE[which]
    ops = Ops(ck, which)
    for op in ('pressure', 'properties'):
        o, b, a, r = ops.runs[op]; ck.contracts.append(cn + '::' + op)
        frame(ck, cn + '::' + op, o, b, a, MAY[op], 0.5)
    t = time.time(); o = havoc(ck.ctx.fresh(which)); b = o.snapshot(); o.call('molar_mass'); ck.ran(o.E); ck.contracts.append(cn + '::molar_mass')
    frame(ck, cn + '::molar_mass', o, b, o.snapshot(), MAY['molar_mass'], time.time() - t)
    t = time.time(); o = havoc(ck.ctx.fresh(which)); b = o.snapshot()
    c = Comp(ck.ctx, E=o.E, S=o.S); o.S = c.S
    o.call('set_composition', c.base); ck.ran(o.E); ck.contracts.append(cn + '::set_composition')
    frame(ck, cn + '::set_composition', o, b, o.snapshot(), XF, time.time() - t)
    ck.contracts.append(cn + '::density')
    def go(args):
        t = time.time(); o, b, a, r, counts, mode = density(ck, ops, which, args)
        sub = Sub(ck); sub.ran(o.E); frame(sub, '%s::density(%s)' % (cn, ', '.join(map(str, args))), o, b, a, ['d'] + OUT, time.time() - t)
        return sub.data()
    each(ck, cn + '::density', go, [()] if which == 'detail' else [(f,) for f in flag_classes(ck.ctx)])

def run(ck):
    ck.assumptions += [ARITH_EUF, "density is executed with its calls to pressure() and properties() replaced by their contracts (what they may change), which this check establishes"]
    for w in ('detail', 'gerg'): ck.attempt(TITLE[w], one, ck, w)
    return ck.finish(find)

def find(ck, nat):
    rng = np.random.default_rng(ck.seed)
    from engine.search import Sampler, conditions
    end = time.time() + 100
    F = STATE + OUT + XF
    S = Sampler(ck.seed, 1500)
    scripts = []
    base = {f: 1000.0 + i for i, f in enumerate(OUT)}
    for k in range(6000):
        which = 'detail' if k % 2 else 'gerg'; i = int(rng.integers(S.n))
        op = [('pressure',), ('properties',), ('molar_mass',), ('density',), ('density',), ('setcomp',)][rng.integers(6)]
        if op[0] == 'density' and which == 'gerg': op = ('density', int(rng.choice([-1, 0, 1, 2, 3])))
        t, d, p = float(S.env['T'][i]), float(S.env['D'][i]), float(S.env['P'][i])
        r = rng.random()
        if r < 0.15: t = [0.0, -5.0, math.nan, math.inf, 1e-300][rng.integers(5)]
        elif r < 0.3: p = [0.0, -5.0, math.nan, math.inf, 1e-16][rng.integers(5)]
        elif r < 0.5: d = [0.0, -5.0, math.nan, math.inf, 1e-16, -1e-3][rng.integers(6)]
        x = S.x(i)
        r = rng.random()
        if r < 0.1: x = [q * 2 for q in x]
        elif r < 0.35: x[int(rng.integers(21))] = float([8e-16, 1e-16, 1e-13, 1e-10, 0.0, 1e-300][rng.integers(6)])
        st = [['new', 'a'], ['set', 'a', dict(x=x, t=t, d=d, p=p, **base)], ['get', 'a', F]]
        st.append(['setcomp', 'a', S.x(int(rng.integers(S.n)))] if op[0] == 'setcomp' else ['call', 'a'] + list(op))
        st.append(['get', 'a', F]); scripts.append((op, dict(which=which, steps=st)))
    res = nat.run([s for o, s in scripts], until=end)
    for (op, sc), r in zip(scripts, res):
        w = TITLE[sc['which']]
        if isinstance(r, dict): return dict(what='%s::%s: %s' % (w, op[0], r['crash']), script=sc)
        b, code, a = dict(zip(F, r[0])), r[1], dict(zip(F, r[2]))
        may = XF if op[0] == 'setcomp' else ['d'] + OUT if op[0] == 'density' else MAY[op[0]]
        for f in F:
            if f not in may and not (a[f] == b[f] or (a[f] != a[f] and b[f] != b[f])):
                return dict(what='%s::%s changes %s from %r to %r' % (w, op[0], f, b[f], a[f]), script=sc)
    return None
