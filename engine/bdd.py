"""Binary decision diagrams over the comparison atoms of path conditions: a disjunction of paths that meet
is brought to a small form (the condition algebra of dag.py alone misses  (a or b) and (a or not b) = a)."""
from . import dag
from .dag import band, bnot, bor

class Big(Exception): pass

class BDD:
    def __init__(self, limit=2000, atoms=64):
        self.uniq = {}; self.node = [None, None]; self.memo = {}; self.of = {}; self.back = {0: 0, 1: 1}
        self.atom = {}; self.limit = limit; self.atoms = atoms; self.budget = 0; self.bad = set(); self.size = {}
    def mk(self, v, hi, lo):
        if hi == lo: return hi
        k = (v, hi, lo); n = self.uniq.get(k)
        if n is None:
            self.budget -= 1
            if self.budget < 0: raise Big()
            n = self.uniq[k] = len(self.node); self.node.append(k)
        return n
    def ite(self, f, g, h):
        if f == 1: return g
        if f == 0: return h
        if g == h: return g
        if g == 1 and h == 0: return f
        k = (f, g, h); r = self.memo.get(k)
        if r is None:
            self.budget -= 1
            if self.budget < 0: raise Big()
            N = self.node
            v = min(N[x][0] for x in k if x > 1)
            hi = [N[x][1] if x > 1 and N[x][0] == v else x for x in k]
            lo = [N[x][2] if x > 1 and N[x][0] == v else x for x in k]
            r = self.memo[k] = self.mk(v, self.ite(*hi), self.ite(*lo))
        return r
    def go(self, b):
        if b.__class__ is int: return b
        r = self.of.get(b.id)
        if r is not None: return r
        if b.op == 'not': r = self.ite(self.go(b.args[0]), 0, 1)
        elif b.op == 'and':
            r = 1
            for x in sorted(b.args, key=lambda x: -x.id):
                r = self.ite(self.go(x), r, 0)
                if not r: break
        else:
            self.atom[b.id] = b; r = self.mk(b.id, 1, 0)
        self.of[b.id] = r
        return r
    def cut(self, f, c):
        """f where c holds, as small as can be (Coudert-Madre restrict)"""
        if c == 1 or f < 2: return f
        if c == 0: return f
        k = (-1, f, c); r = self.memo.get(k)
        if r is None:
            self.budget -= 1
            if self.budget < 0: raise Big()
            v, fh, fl = self.node[f]; w, ch, cl = self.node[c]
            if w < v: r = self.cut(f, self.ite(ch, 1, cl))
            elif w > v: r = self.mk(v, self.cut(fh, c), self.cut(fl, c))
            elif ch == 0: r = self.cut(fl, cl)
            elif cl == 0: r = self.cut(fh, ch)
            else: r = self.mk(v, self.cut(fh, ch), self.cut(fl, cl))
            self.memo[k] = r
        return r
    def restrict(self, b, care):
        """a condition equal to b wherever care holds (0 or 1 where care settles it); b itself when too big"""
        if b.__class__ is int: return b
        self.budget = self.limit * 2
        try:
            f = self.go(b); c = self.go(care)
            if c == 0: return b
            if self.ite(f, c, 0) == 0: return 0
            if self.ite(f, 0, c) == 0: return 1
            r = self.out(self.cut(f, c))
        except Big: return b
        if r.__class__ is int or self.weight(r) <= self.weight(b): return r
        return b
    def out(self, n):
        r = self.back.get(n)
        if r is None:
            v, hi, lo = self.node[n]; a = self.atom[v]
            h = self.out(hi); l = self.out(lo)
            if lo == 0: r = band(a, h)
            elif hi == 0: r = band(bnot(a), l)
            elif hi == 1: r = bnot(band(bnot(a), bnot(l)))
            elif lo == 1: r = bnot(band(a, bnot(h)))
            else: r = bnot(band(bnot(band(a, h)), bnot(band(bnot(a), l))))
            self.back[n] = r
        return r
    def weight(self, b, cap=400):
        """size of a condition (shared subterms once)"""
        n = self.size.get(b.id)
        if n is not None: return n
        seen = set(); todo = [b]
        while todo and len(seen) < cap:
            x = todo.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.op in ('and', 'not'): todo.extend(x.args)
        n = self.size[b.id] = len(seen)
        return n
    def simplify(self, b):
        if b.__class__ is int or b.id in self.bad: return b
        parts = b.args if b.op == 'and' else (b,)
        deep = [x for x in parts if x.op == 'not' and x.args[0].op == 'and']
        if not deep: return b
        if len(self.memo) > 400000: self.__init__(self.limit, self.atoms)
        self.budget = self.limit
        try: r = self.out(self.go(b))
        except Big:
            self.bad.add(b.id); return b
        if r.__class__ is int or self.weight(r) <= self.weight(b): return r
        return b
    def sat(self, b):
        """is b satisfiable, comparisons taken as independent? None: too big"""
        if b.__class__ is int: return bool(b)
        self.budget = self.limit * 4
        try: return self.go(b) != 0
        except Big: return None
