"""Generation of concrete states for the counterexample search: structured random
states plus states that drive the conditions found in the code both ways."""
import numpy as np, math
from .dag import *
from .dag import FNode, BNode
from .vec import veval

XN = ['x%d' % i for i in range(21)]

def compositions(rng, n, lo=0.0):
    X = np.zeros((n, 21))
    for r in range(n):
        k = rng.integers(0, 8)
        if r < 21: X[r, r] = 1.0; continue
        if k == 0:
            i, j = rng.choice(21, 2, replace=False); f = rng.choice([0.5, rng.random(), 10.0 ** -rng.uniform(1, 14)])
            X[r, i] = 1 - f; X[r, j] = f
        elif k == 1: X[r] = rng.dirichlet(np.full(21, 0.3))
        elif k == 2: X[r] = rng.dirichlet(np.full(21, 5.0))
        elif k == 3:
            X[r] = 10.0 ** -rng.uniform(3, 13, 21); X[r, rng.integers(21)] = 0; i = rng.integers(21); X[r, i] = 0; X[r, i] = 1 - X[r].sum()
        elif k == 4:
            m = rng.integers(3, 10); s = rng.choice(21, m, replace=False); X[r, s] = rng.dirichlet(np.ones(m))
        elif k == 5:   # natural-gas like
            X[r, :5] = rng.dirichlet([30, 2, 1, 3, 1]); s = rng.choice(np.arange(5, 21), rng.integers(0, 10), replace=False)
            X[r, s] = 10.0 ** -rng.uniform(1.5, 6, len(s)); X[r] /= X[r].sum()
        elif k == 6:
            X[r] = rng.dirichlet(np.full(21, 0.1)); X[r][X[r] < 1e-6] = 0; X[r] /= X[r].sum()
        else:
            X[r] = rng.dirichlet(np.ones(21)); X[r, rng.integers(21)] = 0.0; X[r] /= X[r].sum()
            X[r] *= rng.uniform(0.991, 1.009)
        X[r][(X[r] > 0) & (X[r] <= lo)] = 0.0
    return X

def conditions(roots):
    """branch conditions (of conditional terms) in a DAG"""
    out = {}
    for n in topo([r for r in roots if r.__class__ in (FNode, BNode)]):
        if n.__class__ is FNode and n.op == 'ite': out[n.args[0].id] = n.args[0]
    return list(out.values())

def literals(b):
    seen = set(); st = [b]; out = []
    while st:
        x = st.pop()
        if x.__class__ is not BNode or x.id in seen: continue
        seen.add(x.id)
        if x.op in ('and', 'not'): st.extend(x.args)
        else: out.append(x)
    return out

def distance(b, truth, val, n):
    """0 where b has the given truth value, else how far from it"""
    if b.__class__ is int: return np.zeros(n) if bool(b) == bool(truth) else np.full(n, 1e3)
    if b.op == 'not': return distance(b.args[0], not truth, val, n)
    if b.op == 'and':
        ds = [distance(x, truth, val, n) for x in b.args]
        return sum(ds) if truth else np.minimum.reduce(ds)
    if b.op in ('bvar', 'nan'):
        v = np.asarray(val(b)) * np.ones(n)
        return np.where(v.astype(bool) == bool(truth), 0.0, 1.0)
    x = np.asarray(val(b.args[0])) * np.ones(n); y = np.asarray(val(b.args[1])) * np.ones(n)
    with np.errstate(all='ignore'):
        gap = np.abs(x - y) / (np.abs(x) + np.abs(y) + 1e-300)
        ok = {'olt': x < y, 'ole': x <= y, 'oeq': x == y}[b.op]
        d = np.where(ok == bool(truth), 0.0, gap + 1e-9)
    return np.where(np.isnan(d), 10.0, d)

class Sampler:
    """A pool of states over variables x0..x20, T, D and any extra scalar variables."""
    def __init__(self, seed, n=1500, extra=(), xlo=0.0, trange=(60.0, 1500.0), drange=(1e-12, 30.0), prefixes=('',)):
        self.rng = np.random.default_rng(seed); r = self.rng
        self.n = n; self.env = {}
        self.xlo = xlo; self.extra = list(extra); self.prefixes = prefixes
        self.trange = trange; self.drange = drange
        self.add(self.fresh(n))
    def fresh(self, n):
        r = self.rng; e = {}
        for p in self.prefixes:
            X = compositions(r, n, self.xlo)
            r.shuffle(X)
            for i in range(21): e[p + 'x%d' % i] = X[:, i].copy()
            T = np.exp(r.uniform(math.log(self.trange[0]), math.log(self.trange[1]), n))
            T = np.where(r.random(n) < 0.5, r.uniform(220, 500, n), T)
            D = np.exp(r.uniform(math.log(self.drange[0]), math.log(self.drange[1]), n))
            D = np.where(r.random(n) < 0.6, r.uniform(0.01, 15, n), D)
            e[p + 'T'] = T; e[p + 'D'] = D
            e[p + 'P'] = np.exp(r.uniform(math.log(1.0), math.log(1e5), n))
        for v in self.extra: e[v] = r.uniform(-1, 1, n) * 10 ** r.uniform(-3, 4, n)
        return e
    def add(self, e):
        if not self.env: self.env = e
        else: self.env = {k: np.concatenate([self.env[k], e[k]]) for k in self.env}
        self.n = len(next(iter(self.env.values())))
    def take(self, env, idx): return {k: v[idx].copy() for k, v in env.items()}
    def mutate(self, e, scale):
        r = self.rng; n = len(next(iter(e.values())))
        for p in self.prefixes:
            X = np.stack([e[p + x] for x in XN], 1)
            for q in range(n):
                k = r.integers(0, 6)
                if k == 0: i, j = r.integers(0, 21, 2); f = r.random() * X[q, i]; X[q, i] -= f; X[q, j] += f
                elif k == 1: i = r.integers(21); X[q, i] = X[q, i] * math.exp(scale * r.normal()); X[q] /= X[q].sum()
                elif k == 2: i = r.integers(21); X[q, i] = 10 ** -r.uniform(0, 6); X[q] /= X[q].sum()
            X[(X > 0) & (X <= self.xlo)] = 0
            for i in range(21): e[p + 'x%d' % i] = X[:, i]
            for v in ('T', 'D', 'P'): e[p + v] = e[p + v] * np.exp(np.where(r.random(n) < 0.6, scale * r.normal(size=n), 0))
        for v in self.extra: e[v] = e[v] * np.exp(scale * r.normal(size=n))
        return e
    def constants(self, conds):
        """states with single variables at and around the constants they are compared with"""
        rng = self.rng; out = []
        seen = set()
        for b in conds:
            for l in literals(b):
                if len(l.args) != 2: continue
                for v, c in (l.args, l.args[::-1]):
                    if v.__class__ is FNode and v.op == 'var' and c.__class__ is float and (v.args[0], c) not in seen and math.isfinite(c) and v.args[0] in self.env:
                        seen.add((v.args[0], c))
                        for w in (c, np.nextafter(c, np.inf), np.nextafter(c, -np.inf), c * 1.1, c * 0.9, c * 3, c / 3):
                            if w > 0: out.append((v.args[0], w))
        out = out[:600]
        if not out: return
        idx = rng.integers(0, self.n, len(out) * 3)
        e = self.take(self.env, idx)
        for k in range(len(idx)):
            nm, w = out[k % len(out)]
            if nm.lstrip('_abcdefgh')[:1] == 'x' and 'x' in nm:
                if w > 1: continue
                p = nm[:nm.index('x')]
                tot = sum(e[p + x][k] for x in XN) - e[nm][k]
                if tot > 0:
                    for x in XN: e[p + x][k] *= (1 - w) / tot
                else: e[p + ('x0' if nm != p + 'x0' else 'x1')][k] = 1 - w
                e[nm][k] = w
            else: e[nm][k] = w
        self.add(e)
    def drive(self, conds, rounds=12, pop=160, limit=60, budget=60.0):
        """make each condition true and false in some states"""
        import time
        t0 = time.time(); self.missed = []
        conds = [b for b in conds if all(n.args[0] in self.env for n in topo([b]) if n.__class__ in (FNode, BNode) and n.op in ('var', 'bvar'))]
        for b in conds[:limit]:
            for truth in (True, False):
                if time.time() - t0 > budget: return
                env = self.env
                d = self._dist(b, truth, env)
                hit = np.nonzero(d == 0)[0]
                if len(hit) >= 20: continue
                best = self.take(env, np.argsort(d, kind='stable')[:pop // 4])
                found = None
                for k in range(rounds):
                    m = self.mutate(self.take(best, self.rng.integers(0, len(best['T'] if 'T' in best else next(iter(best.values()))), pop)), [1.0, 0.3, 0.1, 0.03][k % 4])
                    al = {q: np.concatenate([best[q], m[q]]) for q in best}
                    d = self._dist(b, truth, al)
                    o = np.argsort(d, kind='stable')[:pop // 4]
                    best = self.take(al, o)
                    if d[o[min(30, len(o) - 1)]] == 0: break
                d = self._dist(b, truth, best); h = np.nonzero(d == 0)[0]
                if len(h): self.add(self.take(best, h[:60]))
                else: self.missed.append((b, truth))
    def _dist(self, b, truth, env):
        n = len(next(iter(env.values())))
        ls = literals(b)
        roots = []
        for l in ls:
            roots.extend([a for a in l.args if a.__class__ is FNode] if l.op != 'bvar' else [])
        vals = veval(roots, env); m = {r.id: v for r, v in zip(roots, vals)}
        def val(x):
            if x.__class__ is float: return x
            if x.__class__ is BNode: return veval([x], env)[0]
            return m[x.id]
        return distance(b, truth, val, n)
    def x(self, k, p=''): return [float(self.env[p + x][k]) for x in XN]
