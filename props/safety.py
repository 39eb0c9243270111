"""C05: every calculation returns, whatever the inputs: no panic, no access outside the
objects given, no overflow trap, every loop bounded; density() evaluates the equation of
state at most 20 (DETAIL) and 50 (GERG-2008) times."""
import time, math
import numpy as np, z3
from engine.check import *
from engine.dag import FNode, BNode, SymInt, ipairs
from engine.ctx import ipairs_values
from engine import fpz3
from .dens import *
from .composition import Comp
LIMIT = {'detail': 20, 'gerg': 50}

def noreports(ck, E, name, t=0.0):
    """no reachable panic or invalid access; a report whose path is infeasible is dropped"""
    bad = []; be = 'vcgen'; end = time.time() + 90
    for m, pc, st in E.reports:
        be = 'z3-fp'; r = None
        try:
            r = fpz3.Ord(5000).implies(list(pc), 0)
            if not r and time.time() < end: r, _ = fpz3.prove(z3.And(*[tr_of().go(c) for c in pc]), z3.BoolVal(False), 20000)
        except Exception: pass
        if r: continue
        bad.append('%s in %s' % (m, demangle(st[-1]) if st else '?'))
        if isinstance(getattr(ck, 'hints', None), list): ck.hints += [c for c in pc if c.__class__ is BNode][:20]
    return ck.ob(name, not bad, be, '; '.join(sorted(set(bad))[:5]), t)
def tr_of(): return fpz3.Tr()

def intcells(o): return {k: v for k, (n, v) in o.snapshot().items() if v.__class__ not in (float, FNode)}
def ints(ck, o, ctor, name):
    """the invariant about machine-integer cells that arbitrary objects are assumed to satisfy"""
    new = intcells(ck.ctx.fresh(o.which, ctor)); a = o.snapshot(); vary, fps = ck.ctx.kinds(o.which, ctor)
    bad = [k for k, v in new.items() if k not in vary and (k not in a or not dag.same(a[k][1], v))]
    bad += [k for k, (n, vs) in vary.items() if not (k in a and a[k][0] == n and a[k][1].__class__ in (int, SymInt, BNode) and set(ipairs_values(a[k][1])) <= set(vs))]
    bad += [k for k, v in intcells(o).items() if k not in new and k not in vary]
    return ck.ob(name + ': integer cells of the object keep their constructed values' + (' or take one of the values found reachable' if vary else ''), not bad, 'structural', 'cells %s' % bad[:5])

def one(ck, which):
    cn = TITLE[which]; cells = []
    for ctor in ('new', 'default'):
        t = time.time(); o = ck.ctx.fresh(which, ctor); ck.ran(o.E); ck.contracts.append('%s::%s' % (cn, ctor))
        noreports(ck, o.E, '%s::%s returns' % (cn, ctor), time.time() - t)
        c = intcells(o)
        if c not in cells: cells.append(c); objects(ck, which, ctor)

def objects(ck, which, ctor):
    cn = TITLE[which]; on = '' if ctor == 'new' else ' (object from default)'
    ops = Ops(ck, which, ctor)
    for op in ('pressure', 'properties', 'molar_mass'):
        t = time.time()
        if op in ops.runs: o = ops.runs[op][0]
        else: o = havoc(ck.ctx.fresh(which, ctor)); o.call(op); ck.ran(o.E)
        ck.contracts.append('%s::%s' % (cn, op)); nm = '%s::%s%s' % (cn, op, on)
        noreports(ck, o.E, nm + ' returns from every state', time.time() - t); ints(ck, o, ctor, nm)
    for e in ops.evs:
        if e.label in ('pressure', 'properties'): continue
        o = ops.runs[e.label][0]; nm = demangle(e.name)[6:] + on; ck.contracts.append(demangle(e.name)[6:])
        noreports(ck, o.E, nm + ' returns from every state'); ints(ck, o, ctor, nm)
    t = time.time(); o = havoc(ck.ctx.fresh(which, ctor)); c = Comp(ck.ctx, E=o.E, S=o.S); o.S = c.S
    o.call('set_composition', c.base); ck.ran(o.E); ck.contracts.append(cn + '::set_composition'); nm = '%s::set_composition%s' % (cn, on)
    noreports(ck, o.E, nm + ' returns for every composition', time.time() - t); ints(ck, o, ctor, nm)
    ck.contracts.append(cn + '::density')
    def go(args):
        t = time.time(); nm = '%s::density(%s)%s' % (cn, ', '.join(map(str, args)), on); sub = Sub(ck)
        o, b, a, r, counts, mode = density(ck, ops, which, args); sub.ran(o.E)
        noreports(sub, o.E, nm + ' returns from every state', time.time() - t); ints(sub, o, ctor, nm)
        n = ops.evaluations(counts)
        if mode == 'inline':
            fn = find_fn(ck.ctx, cn + '::pressure'); n = o.E.called.get(fn, 0)
        sub.ob('%s: at most %d pressure evaluations' % (nm, LIMIT[which]), n <= LIMIT[which], 'vcgen', 'may evaluate %d times' % n)
        sub.reach.append('%s: %d pressure evaluations on the longest path, %s' % (nm, n, 'calls by contract' if mode == 'contract' else 'inlined'))
        return sub.data()
    each(ck, cn + '::density', go, [()] if which == 'detail' else [(f,) for f in flag_classes(ck.ctx)])

def comp(ck):
    for op in ('sum', 'check', 'normalize'):
        t = time.time(); c = Comp(ck.ctx); c.call(op); ck.ran(c.E); ck.contracts.append('Composition::' + op)
        noreports(ck, c.E, 'Composition::%s returns for every composition' % op, time.time() - t)
    c = Comp(ck.ctx); c.call('default'); ck.ran(c.E); ck.contracts.append('Composition::default')
    noreports(ck, c.E, 'Composition::default returns')

def run(ck):
    ck.assumptions += ["every floating-point cell of the object, public or private, is arbitrary (including NaN and infinities); integer cells hold the values the constructor gives them, which every operation is shown to keep",
        "density is executed with its calls to pressure() and properties() replaced by their contracts, whose absence of panics is shown separately on arbitrary objects"]
    for w in ('detail', 'gerg'): ck.attempt(TITLE[w], one, ck, w)
    ck.attempt('Composition', comp, ck)
    return ck.finish(find)

def find(ck, nat):
    rng = np.random.default_rng(ck.seed)
    from engine.search import Sampler, conditions
    end = time.time() + 150
    S = Sampler(ck.seed, 1500)
    odd = [0.0, -0.0, -1.0, 1e-16, -1e-16, 5e-324, 1e308, -1e308, math.nan, math.inf, -math.inf, 1e-9, 1e9]
    nat.timeout = 8.0
    scripts = []
    for k in range(12000):
        which = 'detail' if k % 2 else 'gerg'; i = int(rng.integers(S.n)); st = [['new', 'a', 'default' if rng.random() < 0.05 else 'new']]
        for j in range(int(rng.integers(1, 4))):
            op = [('pressure',), ('properties',), ('molar_mass',), ('density',), ('density',), ('setcomp',)][rng.integers(6)]
            if op[0] == 'density' and which == 'gerg': op = ('density', int(rng.choice([-2147483648, -1, 0, 1, 2, 3, 2147483647])))
            v = dict(t=float(S.env['T'][i]), d=float(S.env['D'][i]), p=float(S.env['P'][i])); x = S.x(i)
            for f in v:
                if rng.random() < 0.15: v[f] = float(odd[rng.integers(len(odd))])
                elif rng.random() < 0.2: v[f] = float(10 ** rng.uniform(-20, 12)) * (1 if rng.random() < .9 else -1)
            r = rng.random()
            if r < 0.1: x = [float(q) * float(10 ** rng.uniform(-5, 5)) for q in x]
            elif r < 0.3: x[rng.integers(21)] = float(odd[rng.integers(len(odd))])
            elif r < 0.35: x = [0.0] * 21
            st.append(['set', 'a', dict(x=x, **v)] )
            st.append(['setcomp', 'a', x] if op[0] == 'setcomp' else ['call', 'a'] + list(op))
        scripts.append(dict(which=which, steps=st))
    for k in range(0, len(scripts), 400):
        if time.time() > end: break
        for sc, r in zip(scripts[k:], nat.run(scripts[k:k + 400], until=end)):
            if isinstance(r, dict): return dict(what='%s: %s' % (TITLE[sc['which']], r['crash']), script=sc)
    from .composition import candidates
    cs = candidates(ck, nat, 300)
    for v, r in zip(cs, nat.run([dict(steps=[['comp', 'check', v], ['comp', 'normalize', v], ['comp', 'sum', v]]) for v in cs], until=time.time() + 30)):
        if isinstance(r, dict): return dict(what='Composition: %s' % r['crash'], composition=v)
    return None
