"""Real-arithmetic back end: normal forms of terms.

A normal form is a dict {monomial: coefficient}; a monomial is a sorted tuple of
(atom, exponent).  Atoms are variables, indicators of conditions, interned sums
(normalised by content and leading coefficient), exponentials of interned sums and
logarithms of atoms.  Two terms are equal over the reals (machine arithmetic read
as exact arithmetic, every atom in its domain of definition) if their normal forms
agree; coefficients are compared with a relative tolerance because the constants
in the program are themselves decimal roundings folded in double precision."""
import math
from .dag import *
from .dag import FNode, BNode
from . import dag

TOL = 1e-10        # relative tolerance on coefficients
DROP = 1e-13       # a coefficient this much smaller than what was added up is zero
EXPAND = 256
SMALL = 16

ONE = {(): 1}.keys()

class Undecided(Exception): pass

class Atom:
    __slots__ = ("id", "kind", "data", "key", "ind", "nonneg")

class NFSpace:
    def __init__(self, resolver=None):
        self.atoms = []
        self.index = {}
        self.sums = {}          # frozenset(monos) -> [atom ids]
        self.resolver = resolver or (lambda b: None)
        self.memo = {}
        self.mcache = {}
        self.is_ind = set()
        self.absorb = {}        # var atom id -> indicator atom id
        self.absorbed_by = {}   # indicator id -> var id
        self.dcache = {}
        self.nodes_done = 0
        self.refenv = None; self.refmemo = {}
        self.twoterm = {}       # sum atom E^k + c -> (E, k, c)

    def atom(self, kind, key, data=None):
        k = (kind, key)
        a = self.index.get(k)
        if a is None:
            at = Atom(); at.id = len(self.atoms); at.kind = kind; at.key = key; at.data = data
            self.atoms.append(at); a = at.id
            self.index[k] = a
            if kind == 'ind': self.is_ind.add(a)
        return a
    def var(self, name): return {((self.atom('var', name), 1),): 1.0}
    def declare_presence(self, name, bnode):
        """x_name times the indicator of bnode (x present) is x_name."""
        v = self.atom('var', name); i = self.atom('ind', bnode.id, bnode)
        self.absorb[v] = i; self.absorbed_by[i] = v

    # ---- monomials
    def mmul(self, a, b):
        if not a: return b
        if not b: return a
        k = (a, b) if a <= b else (b, a)
        r = self.mcache.get(k)
        if r is not None: return r
        d = dict(a)
        for at, e in b:
            if at in d:
                if at in self.is_ind: continue
                e2 = d[at] + e
                e2 = rexp(e2)
                if e2 == 0: del d[at]
                else: d[at] = e2
            else: d[at] = e
        for i in list(d):
            if i in self.is_ind:
                v = self.absorbed_by.get(i)
                if v is not None and d.get(v, 0) > 0: del d[i]
        r = tuple(sorted(d.items()))
        if len(self.mcache) < 4_000_000: self.mcache[k] = r
        return r
    def mpow(self, m, e):
        out = []
        for a, x in m:
            if a in self.is_ind:
                if e <= 0: raise Undecided("negative power of a condition")
                out.append((a, 1)); continue
            y = rexp(x * e)
            if y: out.append((a, y))
        return tuple(out)

    # ---- arithmetic
    def add(self, a, b, s=1.0):
        if len(a) < len(b) and s == 1.0: a, b = b, a
        r = dict(a)
        for m, c in b.items():
            c = c * s
            o = r.get(m)
            if o is None:
                if c: r[m] = c
            else:
                n = o + c
                if abs(n) <= DROP * max(abs(o), abs(c)): del r[m]
                else: r[m] = n
        return r
    def scale(self, a, c):
        if c == 0.0: return {}
        return {m: x * c for m, x in a.items()}
    def mulmono(self, a, m, c):
        if not m: return self.scale(a, c)
        r = {}
        for n, x in a.items():
            k = self.mmul(n, m)
            o = r.get(k)
            v = x * c
            if o is None: r[k] = v
            else:
                w = o + v
                if abs(w) <= DROP * max(abs(o), abs(v)): del r[k]
                else: r[k] = w
        return r
    def mul(self, a, b, limit=EXPAND):
        if not a or not b: return {}
        if limit == EXPAND and len(a) > 20 and b.keys() != ONE and self.rational(a): a = self.intern(a)
        if limit == EXPAND and len(b) > 20 and a.keys() != ONE and self.rational(b): b = self.intern(b)
        if len(a) == 1: (m, c), = a.items(); return self.mulmono(b, m, c)
        if len(b) == 1: (m, c), = b.items(); return self.mulmono(a, m, c)
        if limit == EXPAND:
            # long sums stay whole in products with other sums; short ones are multiplied out
            if len(a) > SMALL: a = self.intern(a)
            if len(b) > SMALL: b = self.intern(b)
            if len(a) == 1: (m, c), = a.items(); return self.mulmono(b, m, c)
            if len(b) == 1: (m, c), = b.items(); return self.mulmono(a, m, c)
        if len(a) * len(b) <= max(limit, SMALL * SMALL):
            r = {}
            for m, c in b.items(): r = self.add(r, self.mulmono(a, m, c))
            return r
        (ma, ca), = self.intern(a).items()
        (mb, cb), = self.intern(b).items()
        return {self.mmul(ma, mb): ca * cb}
    def rational(self, a):
        """a sum over denominators that are sums (a mixing rule): kept as one atom in products"""
        k = 0
        for m in a:
            if any(e < 0 and self.atoms[at].kind == 'sum' for at, e in m): k += 1
            elif len(m) > 3: return False
        return k * 2 > len(a)
    def power(self, a, e, limit=EXPAND):
        e = rexp(e)
        if e == 0: return {(): 1.0}
        if e == 1: return a
        if not a:
            if e > 0: return {}
            raise Undecided("division by zero")
        if len(a) == 1:
            (m, c), = a.items()
            if c < 0 and not isinstance(e, int):
                raise Undecided("real power of a negative term")
            return {self.mpow(m, e): c ** e}
        if isinstance(e, int) and 1 < e <= 4 and len(a) <= SMALL and len(a) ** e <= limit:
            r = a
            for _ in range(e - 1): r = self.mul(r, a, limit)
            return r
        (m, c), = self.intern(a).items()
        if c < 0 and not isinstance(e, int):
            (m, c), = self.intern(self.scale(a, -1.0), keep_sign=True).items()
            raise Undecided("real power of a sum with negative leading coefficient")
        return {self.mpow(m, e): c ** e}
    def reduce(self, a):
        """unique form of quotients by S = E^k + c (E an exponential): E^q/S^n with 0 <= q < k"""
        atoms = self.atoms
        work = None
        for m in a:
            hit = self._redux(m)
            if hit is not None: work = True; break
        if not work: return a
        out = {}
        stack = list(a.items())
        while stack:
            m, c = stack.pop()
            hit = self._redux(m)
            if hit is None:
                o = out.get(m)
                if o is None: out[m] = c
                else:
                    n = o + c
                    if abs(n) <= DROP * max(abs(o), abs(c)): del out[m]
                    else: out[m] = n
            else:
                for f, k in hit: stack.append((self.mmul(m, f), c * k))
        return out
    def _redux(self, m):
        atoms = self.atoms
        for at, e in m:
            if e < 0 and at in self.twoterm:
                E, k, c, u = self.twoterm[at]
                for a2, q in m:
                    if a2 == E:
                        if q >= k - 1e-9 * abs(k): return [(tuple(sorted([(at, 1), (E, rexp(-k))])), u), (((E, rexp(-k)),), -c * u)]
                        if q < 0: return [(((at, 1),), 1.0 / c), (((E, k),), -u / c)]
        return None
    def intern(self, a, keep_sign=False):
        """a multi-term sum as coefficient * content * S"""
        if len(a) == 1: return a
        a = self.reduce(a)
        if len(a) <= 1: return a
        # content: atoms common to all monomials with the exponent of smallest value
        it = iter(a)
        first = dict(next(it))
        cont = {at: e for at, e in first.items() if at not in self.is_ind}
        inds = {at for at in first if at in self.is_ind}
        for m in it:
            if not cont and not inds: break
            d = dict(m)
            for at in list(cont):
                e = d.get(at)
                if e is None: del cont[at]
                elif e < cont[at]: cont[at] = e
            inds = {i for i in inds if i in d}
        # atoms missing in some monomials but negative elsewhere stay as they are
        neg = {}
        for m in a:
            for at, e in m:
                if e < 0 and at not in cont and self.atoms[at].kind == 'var': neg[at] = min(neg.get(at, 0), e)
        for at, e in neg.items(): cont[at] = e
        inv = tuple(sorted((at, -e) for at, e in cont.items()))
        body = self.mulmono(a, inv, 1.0) if inv else a
        cm = tuple(sorted(cont.items()))
        if len(body) == 1: return self.mulmono(body, cm, 1.0)
        lead = max(body)
        lc = body[lead]
        if self.refenv is not None:
            # the sign of a sum is chosen positive at a reference point
            mg = []
            try: v = self.eval(body, self.refenv, self.refmemo, mg)
            except Exception: v = math.nan
            if mg and abs(v) > 1e-9 * mg[0] and v * lc < 0: lc = -lc
        s = self.scale(body, 1.0 / lc)
        key = frozenset(s)
        lst = self.sums.setdefault(key, [])
        for aid in lst:
            d = self.atoms[aid].data
            if all(abs(s[m] - d[m]) <= TOL * max(abs(s[m]), abs(d[m])) for m in s): break
        else:
            aid = self.atom('sum', len(self.atoms), s)
            lst.append(aid)
            if len(s) == 2 and () in s:
                (lm,) = [m for m in s if m]
                if len(lm) == 1 and self.atoms[lm[0][0]].kind == 'exp' and lm[0][1] > 0 and abs(s[lm]) == 1.0:
                    self.twoterm[aid] = (lm[0][0], lm[0][1], s[()], s[lm])
        return {self.mmul(((aid, 1),), cm): lc}
    def exp(self, a):
        out = {(): 1.0}
        rest = {}
        for m, c in a.items():
            if m == (): out = self.scale(out, math.exp(c)); continue
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'ln':
                out = self.mulmono(out, ((self.atoms[m[0][0]].data, rexp(c)),), 1.0); continue
            rest[m] = c
        if rest:
            lead = max(rest); lc = rest[lead]
            s = self.scale(rest, 1.0 / lc)
            key = frozenset(s)
            lst = self.sums.setdefault(('exp', key), [])
            for aid in lst:
                d = self.atoms[aid].data
                if all(abs(s[m] - d[m]) <= TOL * max(abs(s[m]), abs(d[m])) for m in s): break
            else:
                aid = self.atom('exp', len(self.atoms), s); lst.append(aid)
            out = self.mulmono(out, ((aid, rexp(lc)),), 1.0)
        return out
    def ln(self, a):
        if not a: raise Undecided("logarithm of zero")
        b = self.intern(a)
        (m, c), = b.items()
        if c <= 0: raise Undecided("logarithm of a negative term")
        out = {(): math.log(c)} if c != 1.0 else {}
        for at, e in m:
            k = self.atoms[at].kind
            if k == 'exp': out = self.add(out, self.scale(self.atoms[at].data, e))
            elif k == 'ind': raise Undecided("logarithm of a condition")
            else: out = self.add(out, {((self.atom('ln', at, at), 1),): float(e)})
        return out

    # ---- differentiation with respect to a variable
    def datom(self, at, v):
        k = (at, v)
        r = self.dcache.get(k)
        if r is None:
            A = self.atoms[at]
            if A.kind == 'var': r = {(): 1.0} if at == v else {}
            elif A.kind == 'ind': r = {}
            elif A.kind == 'sum': r = self.diff(A.data, v)
            elif A.kind == 'exp': r = self.diff(A.data, v)        # log-derivative
            elif A.kind == 'ln':
                d = self.datom(A.data, v)
                r = self.mulmono(d, ((A.data, -1),), 1.0) if self.atoms[A.data].kind != 'exp' else d
            else: raise Undecided("derivative of an opaque term")
            self.dcache[k] = r
        return r
    def diff(self, a, v):
        r = {}
        for m, c in a.items():
            for at, e in m:
                d = self.datom(at, v)
                if not d: continue
                if self.atoms[at].kind == 'exp': base = m
                else: base = self.mmul(m, ((at, -1),))
                r = self.add(r, self.mulmono(d, base, c * e))
        return r

    # ---- from terms
    def of(self, node):
        return self.of_all([node])[0]
    def of_all(self, roots):
        memo = self.memo
        for n in topo([r for r in roots if r.__class__ is FNode]):
            if n.__class__ is not FNode or n.id in memo: continue
            memo[n.id] = self._node(n)
            self.nodes_done += 1
        return [self._arg(r) for r in roots]
    def _arg(self, x):
        if x.__class__ is float:
            if x != x or x in (math.inf, -math.inf): raise Undecided("non-finite constant")
            return {(): x} if x else {}
        r = self.memo[x.id]
        if r.__class__ is Undecided: raise r
        return r
    def _node(self, n):
        try:
            op = n.op
            if op == 'var': return self.var(n.args[0])
            if op == 'ite':
                c = self.cond(n.args[0])
                if c == {}: return self._arg(n.args[2])
                if c == {(): 1.0}: return self._arg(n.args[1])
                b = self._arg(n.args[2])
                d = self.add(self._arg(n.args[1]), b, -1.0)
                return self.add(b, self.mul(d, c, 1 << 20))
            g = [self._arg(x) if x.__class__ in (FNode, float) else x for x in n.args]
            if op == 'fun': return self._fun(n, *g)
            if op == 'add': return self.add(g[0], g[1])
            if op == 'sub': return self.add(g[0], g[1], -1.0)
            if op == 'mul': return self.mul(g[0], g[1])
            if op == 'div': return self.mul(g[0], self.power(g[1], -1))
            if op == 'neg': return self.scale(g[0], -1.0)
            if op == 'exp': return self.exp(g[0])
            if op == 'ln':
                if n.args[0].__class__ is FNode and n.args[0].op == 'abs':
                    a = self._arg(n.args[0].args[0])
                    try: return self.ln(a)
                    except Undecided: return self.ln(self.scale(a, -1.0))
                return self.ln(g[0])
            if op == 'sqrt': return self.power(g[0], 0.5)
            if op == 'powi': return self.power(g[0], g[1])
            if op == 'pow':
                if len(g[1]) == 0: return {(): 1.0}
                if set(g[1]) == {()}: return self.power(g[0], g[1][()])
                return self.exp(self.mul(g[1], self.ln(g[0])))
            if op == 'abs': return self.absval(n, g[0])
            if op in ('uf',):
                return {((self.atom('opaque', n.id, n), 1),): 1.0}
            raise Undecided("operation " + op)
        except Undecided as e:
            return e
        except OverflowError:
            return Undecided("overflow in constant folding")
    def absval(self, n, a): return {((self.atom('opaque', n.id, n), 1),): 1.0}
    def _fun(self, n, f, a, b=None, c=None):
        one = {(): 1.0}
        if f == 'fma': return self.add(self.mul(a, b), c)
        if f in ('sinh', 'cosh', 'tanh'):
            e = self.exp(a); m = self.exp(self.scale(a, -1.0))
            s = self.scale(self.add(e, m, -1.0), 0.5); k = self.scale(self.add(e, m), 0.5)
            return s if f == 'sinh' else k if f == 'cosh' else self.mul(s, self.power(k, -1))
        if f == 'expm1': return self.add(self.exp(a), one, -1.0)
        if f == 'log1p': return self.ln(self.add(a, one))
        if f == 'exp2': return self.exp(self.scale(a, math.log(2)))
        if f == 'log2': return self.scale(self.ln(a), 1 / math.log(2))
        if f == 'log10': return self.scale(self.ln(a), 1 / math.log(10))
        if f == 'cbrt': return self.power(a, 1.0 / 3)
        return {((self.atom('opaque', n.id, n), 1),): 1.0}
    def cond(self, b):
        if b.__class__ is int: return {(): 1.0} if b else {}
        k = ('cond', b.id)
        r = self.memo.get(k)
        if r is not None: return r
        v = self.resolver(b)
        if v is not None: 
            r = ({(): 1.0} if v else {}) if v.__class__ is int else self.cond(v) if v is not b else None
        if v is None or v is b:
            if b.op == 'not': r = self.add({(): 1.0}, self.cond(b.args[0]), -1.0)
            elif b.op == 'and':
                r = {(): 1.0}
                for x in sorted(b.args, key=lambda q: q.id): r = self.mul(r, self.cond(x), 1 << 16)
            else: r = {((self.atom('ind', b.id, b), 1),): 1.0}
        self.memo[k] = r
        return r

    # ---- comparison
    def equal(self, a, b, tol=TOL):
        """None if equal up to tol, else the difference (a normal form)."""
        d = self.diffnf(self.reduce(a), self.reduce(b), tol)
        if not d: return None
        d1 = self.expand(d, positive_only=True)
        if d1:
            # coefficients that cancel only up to rounding
            mg = {}
            d1r = self.reduce(d1)
            if not d1r: return None
        else: return None
        d2 = self.expand(d)
        if not d2: return None
        return d2
    def diffnf(self, a, b, tol=TOL):
        d = {}
        for m in a.keys() | b.keys():
            x = a.get(m, 0.0); y = b.get(m, 0.0)
            if abs(x - y) > tol * max(abs(x), abs(y)): d[m] = x - y
        return d
    def expand(self, d, budget=300000, tol=1e-9, positive_only=False):
        """Clear denominators of interned sums and multiply out; {} if it vanishes."""
        mag = {}
        cur = {m: (c, abs(c)) for m, c in d.items()}
        for _ in range(40):
            # a sum with a non-zero integer exponent
            low = {}
            pick = None
            for m in cur:
                for at, e in m:
                    if self.atoms[at].kind == 'sum':
                        fr = e - math.floor(e)
                        low[at] = min(low.get(at, 0), math.floor(e))
            for at, lo in sorted(low.items(), key=lambda q: len(self.atoms[q[0]].data)):
                if any((dict(m).get(at, 0) != (dict(m).get(at, 0) - math.floor(dict(m).get(at, 0)))) or lo < 0 for m in cur):
                    pick = at; break
            if positive_only:
                pick = None
                for at, lo in sorted(low.items(), key=lambda q: len(self.atoms[q[0]].data)):
                    if lo >= 0 and at not in self.twoterm and any(math.floor(dict(m).get(at, 0)) > 0 for m in cur): pick = at; break
            if pick is None: break
            S = self.atoms[pick].data; lo = min(low[pick], 0)
            new = {}
            pw = {0: {(): 1.0}}
            for m, (c, g) in cur.items():
                e = dict(m).get(pick, 0)
                fr = rexp(e - math.floor(e)); k = int(math.floor(e)) - lo
                while k not in pw:
                    j = max(pw); nxt = {}
                    for m1, c1 in pw[j].items():
                        for m2, c2 in S.items():
                            q = self.mmul(m1, m2); nxt[q] = nxt.get(q, 0.0) + c1 * c2
                    pw[j + 1] = nxt
                    if len(nxt) > 5000: return d
                base = tuple((at, x) for at, x in m if at != pick)
                if fr: base = tuple(sorted(base + ((pick, fr),)))
                for m2, c2 in pw[k].items():
                    q = self.mmul(base, m2)
                    o = new.get(q)
                    v = c * c2; w = g * abs(c2)
                    new[q] = (v, w) if o is None else (o[0] + v, o[1] + w)
                if len(new) > budget: return d
            if positive_only:
                red = {}
                stack = list(new.items())
                while stack:
                    m, (c, g) = stack.pop()
                    hit = self._redux(m)
                    if hit is None:
                        o = red.get(m); red[m] = (c, g) if o is None else (o[0] + c, o[1] + g)
                    else:
                        for f, k in hit: stack.append((self.mmul(m, f), (c * k, g * abs(k))))
                new = red
            cur = {m: (c, g) for m, (c, g) in new.items() if abs(c) > tol * g}
            if not cur: return {}
        return {m: c for m, (c, g) in cur.items()} or {}

    # ---- evaluation
    def evalatom(self, at, env, memo):
        if at in memo: return memo[at]
        A = self.atoms[at]
        if A.kind == 'var': r = env[A.key]
        elif A.kind == 'ind': r = 1.0 if evalf([A.data], env)[0] else 0.0
        elif A.kind == 'sum': r = self.eval(A.data, env, memo)
        elif A.kind == 'exp': r = ('e', self.eval(A.data, env, memo))
        elif A.kind == 'ln':
            b = self.evalatom(A.data, env, memo)
            r = b[1] if b.__class__ is tuple else (math.log(b) if b > 0 else -math.inf if b == 0 else math.nan)
        else: r = evalf([A.data], env)[0]
        memo[at] = r
        return r
    def eval(self, a, env, memo=None, mag=None):
        if memo is None: memo = {}
        tot = []; 
        for m, c in a.items():
            v = c; zero = False; ex = 0.0
            vals = [(self.evalatom(at, env, memo), e) for at, e in m]
            if any(x.__class__ is not tuple and x == 0.0 and e > 0 for x, e in vals): continue
            for x, e in vals:
                if x.__class__ is tuple: ex += x[1] * e
                else:
                    try: v *= x ** e if not (x < 0 and not isinstance(e, int)) else math.nan
                    except ZeroDivisionError: v = math.nan
                    except OverflowError: v = math.inf
            if ex:
                try: v *= math.exp(ex)
                except OverflowError: v = math.inf if v else 0.0
            tot.append(v)
        if mag is not None: mag.append(sum(abs(x) for x in tot))
        try: return math.fsum(tot)
        except (OverflowError, ValueError): return math.nan

    # ---- printing
    def mstr(self, m):
        if len(m) > 8: return self.mstr(m[:8]) + "*...(%d factors)" % len(m)
        return "*".join((self.astr(at) + ("" if e == 1 else "^%g" % e)) for at, e in m) or "1"
    def astr(self, at, depth=1):
        A = self.atoms[at]
        if A.kind == 'var': return A.key
        if A.kind == 'ind': return "[%s]" % bstr(A.data, 2)
        if A.kind == 'ln': return "ln(%s)" % self.astr(A.data)
        if A.kind == 'opaque': return fstr(A.data, 2)
        if depth <= 0: return "S%d" % at
        if len(A.data) <= 3:
            return ("exp" if A.kind == 'exp' else "") + "(" + " + ".join("%.10g*%s" % (c, self.mstr(m)) for m, c in sorted(A.data.items())) + ")"
        return ("exp" if A.kind == 'exp' else "") + "(S%d: %d terms)" % (at, len(A.data))
    def str(self, a, limit=6):
        it = sorted(a.items(), key=lambda q: -abs(q[1]))
        s = " + ".join("%.12g*%s" % (c, self.mstr(m)) for m, c in it[:limit])
        return s + (" + ... (%d terms)" % len(a) if len(a) > limit else "") if a else "0"

_exps = {}
def rexp(e):
    """canonical representative of an exponent (equal up to rounding -> same object)"""
    if e.__class__ is int: return e
    r = round(e)
    if abs(e - r) < 1e-9 * max(1.0, abs(e)): 
        if r != 0 or e == 0: return int(r)
    s = _exps.get(e)
    if s is not None: return s
    m, x = math.frexp(e)
    k = int(m * 2 ** 33)
    for q in (k, k - 1, k + 1):
        s = _exps.get((x, q))
        if s is not None and abs(s - e) <= 4e-10 * abs(e): break
    else:
        s = e
        _exps[(x, k)] = s
    _exps[e] = s
    return s
