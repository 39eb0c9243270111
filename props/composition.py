"""C01, C02: Composition::sum, check and normalize."""
import time, math, itertools
import numpy as np
from engine.check import *
from engine.real import RealSpace
from engine.nf import Undecided
from engine import fpz3
from engine.symex import State
from engine.dag import FNode, BNode
import z3

X = ['c%d' % i for i in range(21)]
CODE = {0: 'Ok', 1: 'Empty', 2: 'BadSum', 3: 'Err(Ok)'}

class Comp:
    """a composition in symbolic memory"""
    def __init__(self, ctx, vals=None, E=None, S=None):
        self.ctx = ctx; self.E = E or ctx.engine(); self.S = S or State(self.E)
        self.base = self.E.new_obj(ctx.lay['comp.size'], 'ext', 'composition')
        self.off = [ctx.lay['comp.' + g] for g in GASES]
        for o, v in zip(self.off, vals or [var(x) for x in X]): self.S.store(self.base + o, 8, v)
    def call(self, op):
        r, self.S = self.E.call2(self.ctx.probe, 'vp_comp_' + op, [self.base], self.S)
        return r
    def get(self): return [self.S.load(self.base + o, 8, True) for o in self.off]

def leaves(t):
    """summands of a tree of additions"""
    out = []; st = [t]
    while st:
        n = st.pop()
        if n.__class__ is FNode and n.op == 'add': st.extend(n.args)
        else: out.append(n)
    return out

def is_sum(t):
    """t adds every component exactly once (and zeros)"""
    ls = leaves(t)
    names = sorted(l.args[0] for l in ls if l.__class__ is FNode and l.op == 'var')
    rest = [l for l in ls if not (l.__class__ is FNode and l.op == 'var')]
    return names == sorted(X) and all(l.__class__ is float and l == 0.0 for l in rest)

def sums_in(roots):
    """maximal addition trees over components"""
    out = {}
    par = set()
    for n in topo(roots):
        if n.__class__ is FNode and n.op == 'add':
            for a in n.args:
                if a.__class__ is FNode and a.op == 'add': par.add(a.id)
        elif n.__class__ in (FNode, BNode): pass
    for n in topo(roots):
        if n.__class__ is FNode and n.op == 'add' and is_sum(n): out[n.id] = n
    return out

def abstract(roots):
    """translator in which the sum of the components is one variable s"""
    tr = fpz3.Tr({i: 's' for i in sums_in(roots)})
    return tr

def codes(r):
    return {v: c for v, c in ipairs(r)}

def cond_of(r, v):
    d = codes(r)
    return d.get(v, 0)

def spec_check(s):
    f = fpz3.fpv
    # |s| < 1e-10 ; |s - 1| > 0.01 (s - 1 is exact for 0.5 <= s <= 2)
    empty = z3.fpLT(z3.fpAbs(s), f(1e-10))
    bad = z3.And(z3.Not(empty), z3.Or(z3.fpIsNaN(s), z3.fpGT(z3.fpAbs(z3.fpSub(fpz3.RNE, s, f(1.0))), f(0.01))))
    return empty, bad

def zob(ck, name, hyp, goal, tr):
    t = time.time()
    ok, m = fpz3.prove(hyp, goal)
    det = ''
    if ok is False:
        det = 'counterexample: ' + ', '.join('%s=%r' % (n, fpz3.model_value(m, v)) for n, v in sorted(tr.vars.items()) if n == 's' or len(tr.vars) < 6)
        if 's' in tr.vars: ck.cex.append(fpz3.model_value(m, tr.vars['s']))
    elif ok is None: det = 'solver: %s' % m
    return ck.ob(name, ok is True, 'z3-fp', det, time.time() - t)

def run(ck):
    ck.cex = []
    ck.assumptions += ["the order in which the 21 components are added is not constrained; the sum is the machine sum in the order the code adds"]
    ck.contracts += ['Composition::sum', 'Composition::check', 'Composition::normalize'][:3]
    ck.attempt('Composition::sum', sum_obs, ck)
    if ck.pid == 'C01':
        ck.attempt('Composition::check', check_obs, ck)
        return ck.finish(find_check)
    ck.assumptions += [ARITH_REAL + " (for the scaled components; the choice of outcome is over machine arithmetic)", "the real reading excludes sums whose reciprocal overflows (below 5.6e-309)"]
    ck.attempt('Composition::normalize', norm_obs, ck)
    return ck.finish(find_norm)

def sum_obs(ck):
    c = Comp(ck.ctx); t = time.time()
    r = c.call('sum'); ck.ran(c.E); ck.noreports(c.E, 'Composition::sum: no panic or invalid access')
    ck.ob('Composition::sum adds each of the 21 components exactly once', r.__class__ is FNode and is_sum(r), 'structural', dag.fstr(r, 30), time.time() - t)
    ck.ob('Composition::sum changes nothing', [dag.same(a, var(x)) for a, x in zip(c.get(), X)] == [True] * 21, 'structural')

def check_obs(ck):
    c = Comp(ck.ctx)
    r = c.call('check'); ck.ran(c.E); ck.noreports(c.E, 'Composition::check: no panic or invalid access')
    ck.ob('Composition::check changes nothing', all(dag.same(a, var(x)) for a, x in zip(c.get(), X)), 'structural')
    conds = [q for q in codes(r).values() if q.__class__ is BNode]
    tr = abstract(conds); s = tr.var('s')
    empty, bad = spec_check(s)
    g = lambda v: tr.go(cond_of(r, v))
    T = z3.BoolVal(True)
    zob(ck, 'Composition::check: Empty exactly when |sum| < 1e-10', T, g(1) == empty, tr)
    zob(ck, 'Composition::check: BadSum exactly when not empty and |sum - 1| > 0.01 or the sum is not a number', T, g(2) == bad, tr)
    zob(ck, 'Composition::check: success exactly otherwise', T, g(0) == z3.And(z3.Not(empty), z3.Not(bad)), tr)
    zob(ck, 'Composition::check: no other outcome', T, z3.Not(g(3)), tr)
    # vacuity guard: the three outcomes are all reachable for the solver
    for nm, q in (('Empty', g(1)), ('BadSum', g(2)), ('Ok', g(0))):
        k, m = fpz3.prove(T, z3.Not(q)); ck.reach.append('outcome %s reachable: %s' % (nm, k is False))

SAMPLES = [0.0, 1.0, 1 + 1e-9, 1 - 1e-7, 0.5, 2.0, 1e-11, 1e-9, 1e-3, 0.991, 1.009, 0.98, 1.02, 100.0, 1e-300, 1e-200, 1e200, 1.7e308, 5e-324, -1.0, -1e-12, -1e-5, -1e300, math.inf, -math.inf, math.nan]
_known = {}
def holds(hyp, c, tr):
    """hyp implies c (False also when the solver gives no answer)"""
    key = (hyp.get_id(), c.get_id())
    r = _known.get(key)
    if r is None:
        r = True
        if set(tr.vars) == {'s'}:
            for v in SAMPLES:      # cheap refutation
                sub = [(tr.vars['s'], fpz3.fpv(v))]
                if z3.is_true(z3.simplify(z3.substitute(hyp, *sub))) and z3.is_false(z3.simplify(z3.substitute(c, *sub))): r = False; break
        if r: r = fpz3.prove(hyp, c, 20000)[0] is True
        _known[key] = (r, hyp, c); return r
    return r[0]

def collapse(t, tr, hyp, memo):
    """value of t under hyp: every conditional decided by the solver"""
    if t.__class__ is not FNode: return t
    r = memo.get(t.id)
    if r is not None: return r
    if t.op == 'ite':
        c = tr.go(t.args[0])
        if holds(hyp, c, tr): r = collapse(t.args[1], tr, hyp, memo)
        elif holds(hyp, z3.Not(c), tr): r = collapse(t.args[2], tr, hyp, memo)
        else: r = dag.rebuild(t, [t.args[0], collapse(t.args[1], tr, hyp, memo), collapse(t.args[2], tr, hyp, memo)])
    elif t.op == 'var': r = t
    else: r = dag.rebuild(t, [collapse(a, tr, hyp, memo) for a in t.args])
    memo[t.id] = r
    return r

def split(t, tr, hyp):
    """[(case, value)]: conditionals that hyp leaves open are split on"""
    v = collapse(t, tr, hyp, {})
    it = next((n for n in topo([v]) if n.__class__ is FNode and n.op == 'ite'), None) if v.__class__ is FNode else None
    if it is None: return [(hyp, v)]
    c = tr.go(it.args[0])
    return split(v, tr, z3.And(hyp, c)) + split(v, tr, z3.And(hyp, z3.Not(c)))

def norm_obs(ck):
    c = Comp(ck.ctx)
    r = c.call('normalize'); ck.ran(c.E); ck.noreports(c.E, 'Composition::normalize: no panic or invalid access')
    out = c.get()
    conds = [q for q in codes(r).values() if q.__class__ is BNode]
    for n in topo(conds + [o for o in out if o.__class__ is FNode]):     # constants the code compares with
        if n.__class__ is BNode and n.op in ('olt', 'ole', 'oeq'):
            for a in n.args:
                if a.__class__ is float and math.isfinite(a): ck.cex += [a, 1 + a, 1 - a, a / 2, 1 + a / 2, 1 - a / 2, 2 * a]
    tr = abstract(conds + [o for o in out if o.__class__ is FNode]); s = tr.var('s')
    pos = z3.And(z3.fpGT(s, fpz3.fpv(0.0)), z3.Not(z3.fpIsInf(s)))
    T = z3.BoolVal(True)
    ok = tr.go(cond_of(r, 0))
    zob(ck, 'Composition::normalize: succeeds exactly when 0 < sum < infinity', T, ok == pos, tr)
    zob(ck, 'Composition::normalize: otherwise reports Empty or BadSum', T, z3.Or(ok, tr.go(cond_of(r, 1)), tr.go(cond_of(r, 2))), tr)
    t = time.time()
    for i, o in enumerate(out):
        vs = split(o, tr, z3.Not(pos))
        ck.ob('Composition::normalize on error: %s unchanged' % GASES[i], all(dag.same(v, var(X[i])) for h, v in vs), 'z3-fp', dag.fstr(o, 3))
    hyp = z3.And(pos, z3.fpGEQ(s, fpz3.fpv(1e-300)))
    ck.backend_time['z3-fp'] = ck.backend_time.get('z3-fp', 0) + time.time() - t
    sp = RealSpace('detail', 'any'); S = {}
    for i in range(21): S = sp.add(S, sp.of(var(X[i])))
    inv = sp.power(S, -1)
    for i, o in enumerate(out):
        t = time.time()
        try:
            d = None
            for h, v in split(o, tr, hyp): d = d or sp.equal(sp.of(v), sp.mul(sp.of(var(X[i])), inv))
            ck.ob('Composition::normalize on success: %s divided by the sum' % GASES[i], d is None, 'nf', sp.str(d)[:300] if d else '', time.time() - t)
        except Undecided as e: ck.ob('Composition::normalize on success: %s divided by the sum' % GASES[i], False, 'nf', e)

# ---------------------------------------------------------------- counterexamples
def candidates(ck, nat, n=3000):
    """compositions whose sums sit at and around every limit"""
    rng = np.random.default_rng(ck.seed)
    sums = [0.0, -0.0, 1.0, 0.99, 1.01, 1e-10, -1e-10, 0.5, 2.0, 1e-12, 100.0, -1.0, -0.5, 1e-300, 1e300, math.inf, -math.inf, math.nan, 0.995, 1.005, 0.9999, 1.02, 0.98, 1e-9, 1e-11, 3.7e-5, 1e5, 12345.678] + [q for q in ck.cex]
    sums += [1 + q * 10.0 ** -k for k in range(1, 16) for q in (1, -1, 3, -3)]
    sums += [k * 0.01 for k in range(90, 111)] + [10.0 ** k for k in range(-20, 20)]
    S = []
    for s in sums:
        S.append(s)
        if math.isfinite(s):
            a = b = s
            for _ in range(3): a = np.nextafter(a, np.inf); b = np.nextafter(b, -np.inf); S += [float(a), float(b)]
    out = []
    for s in S:
        for k in range(21): v = [0.0] * 21; v[k] = s; out.append(v)
    for _ in range(n):
        s = S[rng.integers(len(S))] if rng.random() < .5 else rng.uniform(0.9, 1.1)
        v = rng.dirichlet(np.full(21, rng.choice([0.2, 1.0, 5.0])))
        if rng.random() < 0.3: v[rng.integers(21)] *= -1
        v = v / v.sum()
        out.append([float(q) for q in v * (s if math.isfinite(s) else 1.0)])
        if rng.random() < 0.1: out[-1][rng.integers(21)] = float(rng.choice([math.nan, math.inf, -math.inf, 1e308, -1e308]))
    return out

def fsum(v):
    try: return math.fsum(v)
    except (ValueError, OverflowError): return math.nan

def find_check(ck, nat):
    cs = candidates(ck, nat)
    if ck.pid == 'C01':
        res = nat.run([dict(steps=[['comp', 'check', v], ['comp', 'sum', v]]) for v in cs], until=time.time() + 120)
        for v, r in zip(cs, res):
            if isinstance(r, dict): return dict(what='check: %s' % r['crash'], composition=v)
            code, after = r[0]; s = fsum(v); one = sum(1 for q in v if q != 0) <= 1
            e = ulp = 0.0 if one else 40 * 2.3e-16 * sum(abs(q) for q in v)
            exp = set()
            if s != s or sum(v) != sum(v): exp = {1, 2} if s != s else {0, 1, 2}
            else:
                for q in ({s} if one else {s, s - e, s + e}):
                    exp.add(1 if abs(q) < 1e-10 else 2 if not abs(q - 1) <= 0.01 else 0)
            if s != s: exp = {2}
            if any(abs(q) > 1e300 for q in v if q == q) and not one: continue
            if code not in exp: return dict(what='Composition::check returns %s for a composition with sum %r: %s' % (CODE[code], s, {g: q for g, q in zip(GASES, v) if q != 0}), composition=v)
            if not all(a == b or (a != a and b != b) for a, b in zip(after, v)): return dict(what='check changes the composition', composition=v)
    res = nat.run([dict(steps=[['comp', 'sum', v]]) for v in cs], until=time.time() + 60)
    for v, r in zip(cs, res):
        if isinstance(r, dict): return dict(what='sum: %s' % r['crash'], composition=v)
        s = fsum(v)
        if math.isfinite(s) and all(abs(q) < 1e300 for q in v) and not abs(r[0][0] - s) <= 1e-12 * (sum(abs(q) for q in v)):
            return dict(what='Composition::sum gives %r, the components add up to %r: %s' % (r[0][0], s, {g: q for g, q in zip(GASES, v) if q != 0}), composition=v)
    return None

def find_norm(ck, nat):
    cs = candidates(ck, nat)
    r = find_check(ck, nat)
    if r: return r
    res = nat.run([dict(steps=[['comp', 'normalize', v], ['comp', 'sum', v]]) for v in cs], until=time.time() + 120)
    for v, r in zip(cs, res):
        if isinstance(r, dict): return dict(what='normalize: %s' % r['crash'], composition=v)
        (code, after), (s, _) = r
        if s == s and 0 < s < 1e-300: continue
        if any(q < 0 for q in v) and not s > 1e-6 and not s <= 0: continue
        want = 0 < s < math.inf
        if (code == 0) != want or (not want and code not in (1, 2)): return dict(what='Composition::normalize returns %s for sum %r' % (CODE[code], s), composition=v)
        for g, a, b in zip(GASES, after, v):
            e = b / s if want else b
            if not (a == e or (a != a and e != e) or abs(a - e) <= 1e-9 * abs(e) + 1e-300):
                return dict(what='Composition::normalize (%s, sum %r): %s is %r, expected %r' % (CODE[code], s, g, a, e), composition=v)
    return None
