"""Preconditions of the real-arithmetic contracts and their use in deciding branches."""
from .dag import *
from .dag import FNode, BNode
from . import dag
from .nf import NFSpace, Undecided

XMIN = 0.04        # with 21 fractions summing to at least 0.99, one is at least this large

class RealSpace(NFSpace):
    """Domain: T > 0; every mole fraction is zero or (for GERG) above 1e-15; they sum to
    0.99..1.01; density per `dcase`: 'pos' (D > 1e-15), 'low' (0 <= D <= 1e-15) or 'any' (D >= 0)."""
    def __init__(self, which, dcase, pure=None):
        super().__init__(self._resolve)
        self.which = which; self.dcase = dcase
        self.thr = 0.0 if which == 'detail' else 1e-15
        self.xs = [var('x%d' % i) for i in range(21)]
        self.T = var('T'); self.D = var('D')
        self.xid = {x.id: i for i, x in enumerate(self.xs)}
        self.P = [olt(self.thr, x) for x in self.xs]
        self.pset = set(self.P)
        self.pure = pure
        if pure is None:
            for i in range(21): self.declare_presence('x%d' % i, self.P[i])
        self.facts = []           # (nf, truth of nf < 0)
        self.vT = self.atom('var', 'T'); self.vD = self.atom('var', 'D')
        self.vx = [self.atom('var', 'x%d' % i) for i in range(21)]
        self.undecided = {}
        self.used = set()
        self.ememo1 = {}
        self.refenv = dict(T=341.3, D=0.0123)
        for i in range(21): self.refenv['x%d' % i] = (1.0 + 0.07 * i) / 35.7 if pure is None else float(i == pure)
    # ---- sign analysis
    def nonneg_atom(self, at):
        A = self.atoms[at]
        if A.kind in ('var', 'ind', 'exp'): return True
        if A.kind == 'sum': return self.nonneg(A.data)
        return False
    def nonneg(self, a):
        return all(c >= 0 and all(self.nonneg_atom(at) or (e.__class__ is int and e % 2 == 0) for at, e in m) for m, c in a.items())
    def pos_at(self, a, m):
        """strictly positive when x_m is: some monomial without other vanishing factors"""
        for mono in a:
            ok = True
            for at, e in mono:
                A = self.atoms[at]
                if at == self.vT or at == self.vx[m] or A.kind == 'exp' or (at == self.vD and self.dcase == 'pos'): continue
                if A.kind == 'sum' and self.pos_at(A.data, m): continue
                if e < 0: continue      # a quotient in its domain of definition
                ok = False; break
            if ok: return True
        return False
    def positive(self, a):
        return bool(a) and self.nonneg(a) and all(self.pos_at(a, m) for m in ([self.pure] if self.pure is not None else range(21)))
    def lower(self, a):
        """a lower bound for a sum of non-negative terms, using max x >= XMIN; None if unknown"""
        if not a: return 0.0
        if not self.nonneg(a): return None
        best = None
        for m in ([self.pure] if self.pure is not None else range(21)):
            v = 0.0
            for mono, c in a.items():
                if all(at == self.vx[m] and e > 0 for at, e in mono):
                    p = c
                    for at, e in mono: p *= XMIN ** e
                    v = max(v, p)
            best = v if best is None else min(best, v)
        return best
    # ---- branch resolution
    def _resolve(self, b):
        r = self._res(b)
        if r is None and b.op not in ('and', 'not'): self.undecided[b.id] = b
        return r
    def canon(self, b):
        if b.op == 'not':
            c = self.canon(b.args[0]); return bnot(c)
        if b.op == 'and': return band(*[self.canon(x) for x in b.args])
        r = self._res(b)
        return b if r is None else r
    def _res(self, b):
        op = b.op
        if b in self.pset:
            if self.pure is not None: return int(b is self.P[self.pure])
            return b
        if op == 'bvar': return None
        if op == 'and':
            c = band(*[self.canon(x) for x in b.args])
            if c.__class__ is int: return c
            if c.op == 'and':
                s = c.args
                if all(bnot(p) in s for p in self.P): return 0
            return None if c is b else c
        if op == 'not': return None
        if op == 'nan': return 0
        x, y = b.args
        if y.__class__ is float and op == 'oeq': x, y = y, x
        # presence guards
        if x.__class__ is float and y.__class__ is FNode:
            c, v, side = x, y, 'gt'       # c < v / c <= v / v == c
        elif y.__class__ is float and x.__class__ is FNode:
            c, v, side = y, x, 'lt'       # v < c / v <= c
        else: return self._two(b, x, y)
        strict = op == 'olt'
        i = self.xid.get(v.id)
        if i is not None:
            P = self.P[i]; t = self.thr
            if op == 'oeq':
                if c == 0.0: return bnot(P)
                return 0 if c < 0 or 0 < c <= t else None
            if side == 'gt':
                if c < 0 or (c == 0 and not strict): return 1
                if c == 0 or c <= t and strict or 0 < c <= t: return P
                return None
            if c < 0 or (c == 0 and strict): return 0
            if c == 0 or 0 < c <= t: return bnot(P)
            return None
        if v is self.D:
            if op == 'oeq': return 0 if (c < 0 or self.dcase == 'pos' and c <= 1e-15 or self.dcase == 'low' and c > 1e-15) else None
            gt = side == 'gt'
            if self.dcase == 'pos' and c <= 1e-15: return 1 if gt else 0
            if self.dcase == 'low' and (c > 1e-15 or c == 1e-15 and (strict if gt else not strict)): return 0 if gt else 1
            if c < 0 or c == 0 and (not strict if gt else strict): return 1 if gt else 0
            return None
        if v is self.T:
            if c <= 0: return 0 if op == 'oeq' else 1 if side == 'gt' else 0
            return None
        try: a = self.of(v)
        except Undecided: return None
        if set(a) <= {()}:
            k = a.get((), 0.0)
            if op == 'oeq': return int(k == c)
            if side == 'gt': return int(c < k if strict else c <= k)
            return int(k < c if strict else k <= c)
        for f, neg in self.facts:
            if c == 0 and op != 'oeq' and self.same(a, f):
                # a < 0 decided by the case; a == 0 belongs to the non-negative case
                if side == 'lt' and strict: return neg
                if side == 'gt' and not strict: return 1 - neg
                if side == 'gt' and neg: return 0
                if side == 'lt' and neg: return 1
                self.used.add('zero-boundary')
                return 1 if side == 'gt' else 0
        if c == 0:
            if op == 'oeq': return 0 if self.positive(a) or self.positive(self.scale(a, -1.0)) else None
            if self.positive(a): return 1 if side == 'gt' else 0
            if self.positive(self.scale(a, -1.0)): return 0 if side == 'gt' else 1
            if self.nonneg(a):
                if side == 'gt' and not strict: return 1
                if side == 'lt' and strict: return 0
            return None
        lo = self.lower(a)
        if lo is not None and lo > abs(c) * 10: 
            return 0 if op == 'oeq' else 1 if side == 'gt' else 0
        if c < 0 and (self.nonneg(a)): return 0 if op == 'oeq' else 1 if side == 'gt' else 0
        return None
    def same(self, a, f):
        """equality with a numeric filter before the expensive comparison"""
        if not self.diffnf(self.reduce(a), self.reduce(f)): return True
        env = dict(T=317.0, D=1.7)
        for i in range(21): env['x%d' % i] = (1.0 + 0.13 * i) / 48.3 if self.pure is None or i == self.pure else 0.0
        va, vf = self.eval(a, env, self.ememo1), self.eval(f, env, self.ememo1)
        if va != va or abs(va - vf) > 1e-6 * max(abs(va), abs(vf)): return False
        return self.equal(a, f) is None
    def _two(self, b, x, y):
        try: a = self.add(self.of(y), self.of(x), -1.0)
        except Undecided: return None
        a = self.reduce(a)
        if not a: return 0 if b.op == 'olt' else 1
        if self.positive(a): return 0 if b.op == 'oeq' else 1
        if self.positive(self.scale(a, -1.0)): return 0
        return None
    def absval(self, n, a):
        if self.nonneg(a): return a
        b = self.scale(a, -1.0)
        if self.nonneg(b): return b
        return super().absval(n, a)
