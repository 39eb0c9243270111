"""Discharge conditions over IEEE doubles with Z3 (floating-point theory)."""
import z3, time
from .dag import *
from .dag import FNode, BNode
from . import dag

F64 = z3.Float64(); RNE = z3.RNE()
def fpv(x):
    if x != x: return z3.fpNaN(F64)
    return z3.fpBVToFP(z3.BitVecVal(dag.bits(x), 64), F64)

class Tr:
    def __init__(self, cut=None):
        self.memo = {}; self.cut = cut or {}; self.vars = {}; self.ufs = {}
    def var(self, name):
        v = self.vars.get(name)
        if v is None: v = self.vars[name] = z3.FP(name, F64)
        return v
    def uf(self, name, a):
        f = self.ufs.get((name, len(a)))
        if f is None: f = self.ufs[(name, len(a))] = z3.Function('%s_%d' % (name, len(a)), *([F64] * (len(a) + 1)))
        return f(*a)
    def go(self, root):
        if root.__class__ is float: return fpv(root)
        if root.__class__ is int: return z3.BoolVal(bool(root))
        memo = self.memo
        st = [root]
        while st:
            n = st[-1]
            if n.id in memo: st.pop(); continue
            if n.id in self.cut: memo[n.id] = self.var(self.cut[n.id]); st.pop(); continue
            ch = [c for c in children(n) if c.id not in memo]
            if ch: st.extend(ch); continue
            st.pop()
            memo[n.id] = self.one(n)
        return memo[root.id]
    def one(self, n):
        g = lambda x: self.memo[x.id] if x.__class__ in (FNode, BNode) else (fpv(x) if x.__class__ is float else z3.BoolVal(bool(x)))
        op = n.op
        if n.__class__ is BNode:
            if op == 'bvar': return z3.Bool(n.args[0])
            a = [g(x) for x in n.args]
            if op == 'not': return z3.Not(a[0])
            if op == 'and': return z3.And(*a)
            if op == 'nan': return z3.fpIsNaN(a[0])
            return {'olt': z3.fpLT, 'ole': z3.fpLEQ, 'oeq': z3.fpEQ}[op](a[0], a[1])
        if op == 'var': return self.var(n.args[0])
        if op in ('powi', 'fun', 'uf'):
            nm = op if op == 'powi' else str(n.args[0])
            rest = n.args if op == 'powi' else n.args[1:]
            if op == 'powi' and n.args[1].__class__ is int: nm = 'powi%d' % n.args[1]; rest = n.args[:1]
            return self.uf(nm, [g(x) for x in rest])
        a = [g(x) for x in n.args]
        if op == 'add': return z3.fpAdd(RNE, *a)
        if op == 'sub': return z3.fpSub(RNE, *a)
        if op == 'mul': return z3.fpMul(RNE, *a)
        if op == 'div': return z3.fpDiv(RNE, *a)
        if op == 'neg': return z3.fpNeg(*a)
        if op == 'abs': return z3.fpAbs(*a)
        if op == 'sqrt': return z3.fpSqrt(RNE, *a)
        if op == 'ite': return z3.If(*a)
        return self.uf(op, a)

def prove(hyp, goal, timeout=60000):
    """(True, None) if hyp implies goal, (False, model) with a counterexample, (None, reason) if unknown"""
    s = z3.Solver(); s.set('timeout', timeout)
    s.add(hyp, z3.Not(goal))
    r = s.check()
    if r == z3.unsat: return True, None
    if r == z3.sat: return False, s.model()
    return None, s.reason_unknown()

def model_value(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_fp_value(x) or True:
        b = m.eval(z3.fpToIEEEBV(x), model_completion=True)
        try: return dag.from_bits(b.as_long())
        except Exception: return float('nan')

class Prop:
    """propositional translation: comparisons are atoms"""
    def __init__(self): self.memo = {}
    def go(self, root):
        if root.__class__ is int: return z3.BoolVal(bool(root))
        memo = self.memo; st = [root]
        while st:
            n = st[-1]
            if n.id in memo: st.pop(); continue
            if n.op in ('not', 'and'):
                ch = [c for c in n.args if c.id not in memo]
                if ch: st.extend(ch); continue
                st.pop()
                memo[n.id] = z3.Not(memo[n.args[0].id]) if n.op == 'not' else z3.And(*[memo[c.id] for c in n.args])
            else: st.pop(); memo[n.id] = z3.Bool('b%d' % n.id)
        return memo[root.id]
def prop_valid(f, timeout=60000):
    s = z3.Solver(); s.set('timeout', timeout); s.add(z3.Not(f)); return s.check() == z3.unsat
def int_same(a, b):
    """two finite guarded integers agree under every truth assignment of the comparisons"""
    if dag.same(a, b): return True
    ok = (int, BNode, dag.SymInt)
    if a.__class__ not in ok or b.__class__ not in ok: return False
    p = Prop(); A = dict(dag.ipairs(a)); B = dict(dag.ipairs(b))
    return all(prop_valid(p.go(A.get(v, 0)) == p.go(B.get(v, 0))) for v in set(A) | set(B))

class Ord:
    """Comparisons over extended doubles as an order: every compared term is a NaN flag and a
    rational; negation, absolute value and the propagation of NaN are the only operations known.
    Whatever is proved here holds for all doubles (infinities are the two ends of the order)."""
    INF = 10 ** 400
    def __init__(self, timeout=60000):
        self.s = z3.Solver(); self.s.set('timeout', timeout); self.m = {}; self.b = {}; self.seen = set(); self.proofs = 0
    def term(self, n):
        """(nan, rational)"""
        if n.__class__ is float:
            if n != n: return z3.BoolVal(True), z3.RealVal(0)
            if n in (float('inf'), float('-inf')): return z3.BoolVal(False), z3.RealVal(self.INF if n > 0 else -self.INF)
            from fractions import Fraction
            return z3.BoolVal(False), z3.RealVal(Fraction(n))
        r = self.m.get(n.id)
        if r is None:
            r = self.m[n.id] = (z3.Bool('n%d' % n.id), z3.Real('r%d' % n.id))
            self.s.add(r[1] <= self.INF, r[1] >= -self.INF)
            if n.op in ('neg', 'abs'):
                c = self.term(n.args[0])
                self.s.add(r[0] == c[0], r[1] == (-c[1] if n.op == 'neg' else z3.If(c[1] < 0, -c[1], c[1])))
            elif n.op in ('add', 'sub', 'mul', 'div', 'ln', 'exp', 'sqrt'):
                for x in n.args:
                    if x.__class__ is FNode: self.s.add(z3.Implies(self.term(x)[0], r[0]))
                if n.op in ('exp', 'sqrt'): self.s.add(r[1] >= 0)
        return r
    def go(self, root):
        if root.__class__ is int: return z3.BoolVal(bool(root))
        if z3.is_expr(root): return root
        memo = self.b; st = [root]
        while st:
            n = st[-1]
            if n.id in memo: st.pop(); continue
            if n.op in ('not', 'and'):
                ch = [c for c in n.args if c.id not in memo]
                if ch: st.extend(ch); continue
                st.pop()
                memo[n.id] = z3.Not(memo[n.args[0].id]) if n.op == 'not' else z3.And(*[memo[c.id] for c in n.args])
                continue
            st.pop()
            if n.op == 'bvar': memo[n.id] = z3.Bool('b%d' % n.id)
            elif n.op == 'nan': memo[n.id] = self.term(n.args[0])[0]
            else:
                (a, x), (b, y) = self.term(n.args[0]), self.term(n.args[1])
                memo[n.id] = z3.And(z3.Not(a), z3.Not(b), {'olt': x < y, 'ole': x <= y, 'oeq': x == y}[n.op])
        return memo[root.id]
    def gt(self, n, c=0.0):
        a, x = self.term(n); return z3.And(z3.Not(a), x > self.term(c)[1])
    def between(self, n, lo, hi):
        a, x = self.term(n); return z3.And(z3.Not(a), x > self.term(lo)[1], x < self.term(hi)[1])
    def implies(self, hyps, goal):
        self.proofs += 1
        f = [self.go(h) for h in hyps] + [z3.Not(self.go(goal))]      # (new terms add their axioms outside the scope)
        self.s.push()
        try:
            self.s.add(*f)
            return self.s.check() == z3.unsat
        finally: self.s.pop()
