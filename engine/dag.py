"""Hash-consed term DAG shared by all back ends.

Floating-point terms: Python float (a concrete IEEE double) or FNode.
Booleans: Python int 0/1 or BNode (literals, NOT, AND over a frozenset; OR is
NOT-AND-NOT).  Symbolic machine integers: SymInt, a finite guarded value set.
Terms are built exactly as the code computes them: the only rewriting is
constant folding with IEEE arithmetic and propositional simplification, so two
terms that are the same node denote the same bits (given equal variables and
deterministic operations).
"""
import math, struct, ctypes

_libm = ctypes.CDLL("libm.so.6")
for _n in ("exp", "log", "sqrt", "fabs"):
    f = getattr(_libm, _n); f.restype = ctypes.c_double; f.argtypes = [ctypes.c_double]
_libm.pow.restype = ctypes.c_double; _libm.pow.argtypes = [ctypes.c_double, ctypes.c_double]
c_exp, c_log, c_pow = _libm.exp, _libm.log, _libm.pow

def bits(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def from_bits(b): return struct.unpack('<d', struct.pack('<Q', b))[0]

def c_sqrt(x):
    if x < 0.0 or x != x: return _libm.sqrt(x)
    return math.sqrt(x)
def c_div(a, b):
    try: return a / b
    except ZeroDivisionError:
        if a != a or a == 0.0: return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
def c_powi(a, n):
    # compiler-rt __powidf2
    if n == 2: return a * a
    recip = n < 0
    b = n; r = 1.0
    while True:
        if b & 1: r *= a
        b = int(b / 2)  # C truncating division
        if b == 0: break
        a *= a
    return c_div(1.0, r) if recip else r

class FNode:
    __slots__ = ("op", "args", "id", "aux")
    def __repr__(self): return fstr(self, 4)
    # specification sugar: exact reals/floats built with Python operators
    def __add__(a, b): return fadd(a, b)
    def __radd__(a, b): return fadd(b, a)
    def __sub__(a, b): return fsub(a, b)
    def __rsub__(a, b): return fsub(b, a)
    def __mul__(a, b): return fmul(a, b)
    def __rmul__(a, b): return fmul(b, a)
    def __truediv__(a, b): return fdiv(a, b)
    def __rtruediv__(a, b): return fdiv(b, a)
    def __neg__(a): return fneg(a)

_tab = {}
_next = [1]
NODES = []

def mk(op, args):
    key = (op,) + tuple([a.id if a.__class__ is FNode or a.__class__ is BNode else (('c', bits(a)) if a.__class__ is float else a) for a in args])
    n = _tab.get(key)
    if n is None:
        n = FNode(); n.op = op; n.args = args; n.id = _next[0]; n.aux = None
        _next[0] += 1
        _tab[key] = n
    return n

def var(name): return mk('var', (name,))

def fadd(a, b):
    if a.__class__ is float and b.__class__ is float: return a + b
    return mk('add', (a, b))
def fsub(a, b):
    if a.__class__ is float and b.__class__ is float: return a - b
    return mk('sub', (a, b))
def fmul(a, b):
    if a.__class__ is float and b.__class__ is float: return a * b
    return mk('mul', (a, b))
def fdiv(a, b):
    if a.__class__ is float and b.__class__ is float: return c_div(a, b)
    return mk('div', (a, b))
def fneg(a):
    if a.__class__ is float: return -a
    return mk('neg', (a,))
def fabs_(a):
    if a.__class__ is float: return abs(a)
    return mk('abs', (a,))
def fsqrt(a):
    if a.__class__ is float: return c_sqrt(a)
    return mk('sqrt', (a,))
def fexp(a):
    if a.__class__ is float: return c_exp(a)
    return mk('exp', (a,))
def fln(a):
    if a.__class__ is float: return c_log(a)
    return mk('ln', (a,))
def fpow(a, b):
    if a.__class__ is float and b.__class__ is float: return c_pow(a, b)
    return mk('pow', (a, b))
def fpowi(a, n):
    if a.__class__ is float and n.__class__ is int: return c_powi(a, n)
    return mk('powi', (a, n))
FUN1 = ('sinh', 'cosh', 'tanh', 'cbrt', 'expm1', 'log1p', 'exp2', 'log2', 'log10', 'floor', 'ceil', 'round', 'trunc', 'rint',
        'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh')
FUN2 = ('hypot', 'fmod', 'copysign', 'atan2', 'fdim')
for _n in FUN1: f = getattr(_libm, _n); f.restype = ctypes.c_double; f.argtypes = [ctypes.c_double]
for _n in FUN2: f = getattr(_libm, _n); f.restype = ctypes.c_double; f.argtypes = [ctypes.c_double] * 2
_libm.fma.restype = ctypes.c_double; _libm.fma.argtypes = [ctypes.c_double] * 3
def cfun(name, *a): return getattr(_libm, name)(*a)
def fun(name, *a):
    """other libm functions, by name"""
    if all(x.__class__ is float for x in a): return cfun(name, *a)
    return mk('fun', (name,) + a)
def uf(name, args): return mk('uf', (name,) + tuple(args))

# ---------------------------------------------------------------- booleans
class BNode:
    __slots__ = ("op", "args", "id", "neg")
    def __repr__(self): return bstr(self, 4)

_btab = {}
def _bmk(key, op, args):
    n = _btab.get(key)
    if n is None:
        n = BNode(); n.op = op; n.args = args; n.id = _next[0]; n.neg = None
        _next[0] += 1
        _btab[key] = n
    return n
def _k(a): return a.id if a.__class__ is FNode else ('c', bits(a))

def batom(op, *args):
    """op in olt, ole, oeq, nan, or a named boolean 'bvar'."""
    return _bmk((op,) + tuple(_k(a) if not isinstance(a, str) else a for a in args), op, args)
def bvar(name): return batom('bvar', name)

def bnot(b):
    if b.__class__ is int: return 1 - b
    if b.op == 'not': return b.args[0]
    if b.neg is None: b.neg = _bmk(('not', b.id), 'not', (b,))
    return b.neg

def band(*items):
    s = set(); stack = list(items)
    while stack:
        x = stack.pop()
        if x.__class__ is int:
            if not x: return 0
            continue
        if x.op == 'and': stack.extend(x.args)
        else: s.add(x)
    if not s: return 1
    if len(s) == 1: return next(iter(s))
    key = frozenset(s); r = _bands.get(key)
    if r is None:
        r = _bands[key] = _band(s)
        if len(_bands) > 300000: _bands.clear()
    return r
_bands = {}
def _band(s):
    # unit propagation of members into NOT(AND ...) members
    for x in s:
        if (x.args[0] if x.op == 'not' else x.neg) in s: return 0
    changed = True; fresh = set()
    while changed:
        changed = False
        for x in fresh:
            if (x.args[0] if x.op == 'not' else x.neg) in s: return 0
        fresh = set()
        for x in list(s):
            if x.op == 'not' and x.args[0].op == 'and':
                inner = x.args[0].args
                keep = []
                true = False
                for y in inner:
                    if y in s: continue
                    if (y.args[0] if y.op == 'not' else y.neg) in s: true = True; break
                    keep.append(y)
                if true:
                    s.discard(x); changed = True
                elif len(keep) != len(inner):
                    s.discard(x); changed = True
                    if not keep: return 0
                    r = bnot(band(*keep))
                    if r.__class__ is int:
                        if not r: return 0
                    elif r.op == 'and': s.update(r.args); fresh.update(r.args)
                    else: s.add(r); fresh.add(r)
        if len(s) > 400: break
    if not s: return 1
    if len(s) == 1: return next(iter(s))
    fs = frozenset(s)
    return _bmk(('and', fs), 'and', fs)

def conj(b): return b.args if b.op == 'and' else frozenset((b,))
def neg_of(x): return x.args[0] if x.op == 'not' else x.neg
FACTOR = False   # on while loops over filtered sequences are executed (symex)
def bor(*items):
    if FACTOR and len(items) == 2:
        a, b = items
        if a.__class__ is BNode and b.__class__ is BNode and (a.op == 'and' or b.op == 'and'):
            # (A and x) or (A and not x and B)  =  A and (x or B)
            A = conj(a); B = conj(b); com = A & B
            ra = A - com; rb = B - com
            if not ra or not rb: return band(*com)
            if len(ra) == 1 or len(rb) == 1:
                if len(ra) > 1: ra, rb = rb, ra
                x = next(iter(ra)); y = neg_of(x)
                if y is not None and y in rb: rb = rb - {y}
                if not rb: return band(*com)
                return band(*com, bnot(band(bnot(x), bnot(band(*rb)))))
            if com: return band(*com, bnot(band(bnot(band(*ra)), bnot(band(*rb)))))
    return bnot(band(*[bnot(x) for x in items]))
def bite(c, a, b):
    if c.__class__ is int: return a if c else b
    if a.__class__ is int and b.__class__ is int:
        if a == b: return a
        return c if a else bnot(c)
    if a is b: return a
    return bor(band(c, a), band(bnot(c), b))

def isnan(a):
    if a.__class__ is float: return 1 if a != a else 0
    return batom('nan', a)
def olt(a, b):
    if a.__class__ is float and b.__class__ is float: return 1 if a < b else 0
    if a is b: return 0
    if a.__class__ is float and a != a or b.__class__ is float and b != b: return 0
    return batom('olt', a, b)
def ole(a, b):
    if a.__class__ is float and b.__class__ is float: return 1 if a <= b else 0
    if a is b: return bnot(isnan(a))
    if a.__class__ is float and a != a or b.__class__ is float and b != b: return 0
    return batom('ole', a, b)
def oeq(a, b):
    if a.__class__ is float and b.__class__ is float: return 1 if a == b else 0
    if a is b: return bnot(isnan(a))
    if a.__class__ is float and a != a or b.__class__ is float and b != b: return 0
    if a.__class__ is float: a, b = b, a
    elif b.__class__ is not float and a.id > b.id: a, b = b, a
    if b.__class__ is float and b == 0.0: b = 0.0  # -0.0 compares equal
    return batom('oeq', a, b)
def uno(a, b): return bor(isnan(a), isnan(b))

def fcmp(pred, a, b):
    if pred == 'olt': return olt(a, b)
    if pred == 'ogt': return olt(b, a)
    if pred == 'ole': return ole(a, b)
    if pred == 'oge': return ole(b, a)
    if pred == 'oeq': return oeq(a, b)
    if pred == 'une': return bnot(oeq(a, b))
    if pred == 'ult': return bnot(ole(b, a))
    if pred == 'ugt': return bnot(ole(a, b))
    if pred == 'ule': return bnot(olt(b, a))
    if pred == 'uge': return bnot(olt(a, b))
    if pred == 'uno': return uno(a, b)
    if pred == 'ord': return bnot(uno(a, b))
    if pred == 'one': return bor(olt(a, b), olt(b, a))
    if pred == 'ueq': return bnot(bor(olt(a, b), olt(b, a)))
    raise Unsupported("fcmp " + pred)

def same(a, b):
    """Structural identity (bitwise for concrete floats)."""
    if a is b: return True
    ca = a.__class__
    if ca is not b.__class__: return False
    if ca is float: return a == b and bits(a) == bits(b) or (a != a and b != b and bits(a) == bits(b))
    if ca is int: return a == b
    if ca is SymInt: return a.vals.keys() == b.vals.keys() and all(a.vals[k] is b.vals[k] for k in a.vals)
    return False

def fite(c, a, b):
    if c.__class__ is int: return a if c else b
    if same(a, b): return a
    if c.op == 'not': c, a, b = c.args[0], b, a
    # ite(c, ite(c,x,y), z) -> ite(c,x,z)
    if a.__class__ is FNode and a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.__class__ is FNode and b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if same(a, b): return a
    return mk('ite', (c, a, b))

class Unsupported(Exception): pass
class Unbounded(Unsupported): pass

class SymInt:
    """Guarded finite set of concrete integers {value: condition}."""
    __slots__ = ("vals",)
    def __init__(self, vals): self.vals = vals
    def __repr__(self): return "SymInt(%r)" % (self.vals,)

def symint(pairs):
    d = {}
    for v, c in pairs:
        if c.__class__ is int and not c: continue
        d[v] = bor(d[v], c) if v in d else c
    if len(d) == 1: return next(iter(d))
    if not d: return 0
    if len(d) > 300: raise Unsupported("symbolic integer with too many values")
    return SymInt(d)
def ipairs(x):
    if x.__class__ is SymInt: return list(x.vals.items())
    if x.__class__ is BNode: return [(1, x), (0, bnot(x))]
    return [(x, 1)]
def imap(f, x):
    if x.__class__ is SymInt or x.__class__ is BNode:
        return symint([(f(v), c) for v, c in ipairs(x)])
    return f(x)
def imap2(f, x, y):
    if x.__class__ is int and y.__class__ is int: return f(x, y)
    if x.__class__ is SymInt and y.__class__ is SymInt and len(x.vals) == len(y.vals):
        # the same alternatives (mutually exclusive) on both sides: pair them up
        at = {c: w for w, c in y.vals.items() if c.__class__ is BNode}
        if len(at) == len(x.vals) and all(c.__class__ is BNode and c in at for c in x.vals.values()):
            return symint([(f(v, at[c]), c) for v, c in x.vals.items()])
    return symint([(f(v, w), band(c, d)) for v, c in ipairs(x) for w, d in ipairs(y)])
def ibool(x):
    """SymInt over {0,1} (or int) -> boolean."""
    if x.__class__ is int: return x & 1
    if x.__class__ is BNode: return x
    return bor(*[c for v, c in x.vals.items() if v & 1])
def iite(c, a, b):
    if c.__class__ is int: return a if c else b
    if same(a, b): return a
    return symint([(v, band(c, d)) for v, d in ipairs(a)] + [(v, band(bnot(c), d)) for v, d in ipairs(b)])

# ---------------------------------------------------------------- printing
def fstr(n, depth=3):
    if n.__class__ is float: return repr(n)
    if n.__class__ is BNode: return bstr(n, depth)
    if n.__class__ is not FNode: return repr(n)
    if n.op == 'var': return n.args[0]
    if depth <= 0: return "#%d" % n.id
    a = [fstr(x, depth - 1) for x in n.args]
    sym = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}.get(n.op)
    if sym: return "(%s %s %s)" % (a[0], sym, a[1])
    return "%s(%s)" % (n.op, ", ".join(a))
def bstr(b, depth=3):
    if b.__class__ is int: return str(b)
    if b.op == 'bvar': return b.args[0]
    if depth <= 0: return "b#%d" % b.id
    if b.op in ('and',): return "and(" + ", ".join(sorted(bstr(x, depth - 1) for x in b.args)) + ")"
    if b.op == 'not': return "!" + bstr(b.args[0], depth)
    if b.op == 'nan': return "isnan(%s)" % fstr(b.args[0], depth - 1)
    s = {'olt': '<', 'ole': '<=', 'oeq': '=='}[b.op]
    return "(%s %s %s)" % (fstr(b.args[0], depth - 1), s, fstr(b.args[1], depth - 1))

# ---------------------------------------------------------------- traversal
def children(n):
    if n.__class__ is FNode or n.__class__ is BNode:
        return [x for x in n.args if x.__class__ is FNode or x.__class__ is BNode]
    return []
def topo(roots):
    seen = set(); out = []
    stack = [(r, False) for r in roots if r.__class__ in (FNode, BNode)]
    while stack:
        n, done = stack.pop()
        if done: out.append(n); continue
        if n.id in seen: continue
        seen.add(n.id)
        stack.append((n, True))
        for c in children(n):
            if c.id not in seen: stack.append((c, False))
    return out

_fv = {}; _fvi = {}; _fvn = []
def fvmask(n):
    """variables of a term as a bit set (cached per node)"""
    if n.__class__ is not FNode and n.__class__ is not BNode: return 0
    r = _fv.get(n.id)
    if r is not None: return r
    stack = [(n, False)]
    while stack:
        x, done = stack.pop()
        if not done:
            if x.id in _fv: continue
            if x.op == 'var':
                i = _fvi.get(x.args[0])
                if i is None: i = _fvi[x.args[0]] = len(_fvn); _fvn.append(x.args[0])
                _fv[x.id] = 1 << i; continue
            stack.append((x, True))
            for c in x.args:
                if (c.__class__ is FNode or c.__class__ is BNode) and c.id not in _fv: stack.append((c, False))
        else:
            m = 0
            for c in x.args:
                if c.__class__ is FNode or c.__class__ is BNode: m |= _fv[c.id]
            _fv[x.id] = m
    return _fv[n.id]
def free_vars(roots):
    m = 0
    for r in roots: m |= fvmask(r)
    out = set()
    while m:
        b = m & -m; out.add(_fvn[b.bit_length() - 1]); m ^= b
    return out

def parts_of(v):
    """terms a cell value is made of"""
    return list(v.vals.values()) if v.__class__ is SymInt else [v]

def subst_values(vals, m):
    """subst over cell values, integers included"""
    flat = []; n = []
    for v in vals: q = parts_of(v); flat += q; n.append(len(q))
    r = subst(flat, m); out = []; i = 0
    for v, k in zip(vals, n):
        out.append(symint(zip(v.vals, r[i:i + k])) if v.__class__ is SymInt else r[i]); i += k
    return out

def subst(root, m, memo=None):
    """Replace nodes (by identity, dict node->value) and rebuild with folding."""
    if memo is None: memo = {}
    roots = root if isinstance(root, (list, tuple)) else [root]
    for n in topo(roots):
        if n.id in memo: continue
        if n in m: memo[n.id] = m[n]; continue
        g = lambda x: memo[x.id] if x.__class__ in (FNode, BNode) else x
        if n.__class__ is BNode:
            if n.op == 'not': r = bnot(g(n.args[0]))
            elif n.op == 'and': r = band(*[g(x) for x in n.args])
            elif n.op == 'nan': r = isnan(g(n.args[0]))
            elif n.op == 'olt': r = olt(g(n.args[0]), g(n.args[1]))
            elif n.op == 'ole': r = ole(g(n.args[0]), g(n.args[1]))
            elif n.op == 'oeq': r = oeq(g(n.args[0]), g(n.args[1]))
            else: r = n
        else:
            r = rebuild(n, [g(x) for x in n.args])
        memo[n.id] = r
    f = lambda x: memo[x.id] if x.__class__ in (FNode, BNode) else x
    return [f(r) for r in roots] if isinstance(root, (list, tuple)) else f(root)

_B = {'add': fadd, 'sub': fsub, 'mul': fmul, 'div': fdiv, 'neg': fneg, 'abs': fabs_, 'sqrt': fsqrt,
      'exp': fexp, 'ln': fln, 'pow': fpow, 'powi': fpowi, 'ite': fite}
def rebuild(n, a):
    f = _B.get(n.op)
    if f: return f(*a)
    if n.op == 'var': return n
    if n.op == 'fun': return fun(*a)
    return mk(n.op, tuple(a))

# ---------------------------------------------------------------- concrete evaluation (IEEE double)
def evalf(roots, env, ufs=None):
    """Evaluate terms with IEEE doubles; env maps variable name -> float; ufs maps
    uf name -> callable(args)."""
    val = {}
    g = lambda x: val[x.id] if x.__class__ in (FNode, BNode) else x
    for n in topo(roots):
        a = [g(x) for x in n.args] if n.op != 'var' and n.op != 'bvar' else n.args
        op = n.op
        if op == 'var': v = env[a[0]]
        elif op == 'add': v = a[0] + a[1]
        elif op == 'mul': v = a[0] * a[1]
        elif op == 'sub': v = a[0] - a[1]
        elif op == 'div': v = c_div(a[0], a[1])
        elif op == 'neg': v = -a[0]
        elif op == 'ite': v = a[1] if a[0] else a[2]
        elif op == 'abs': v = abs(a[0])
        elif op == 'sqrt': v = c_sqrt(a[0])
        elif op == 'exp': v = c_exp(a[0])
        elif op == 'ln': v = c_log(a[0])
        elif op == 'pow': v = c_pow(a[0], a[1])
        elif op == 'powi': v = c_powi(a[0], a[1])
        elif op == 'olt': v = a[0] < a[1]
        elif op == 'ole': v = a[0] <= a[1]
        elif op == 'oeq': v = a[0] == a[1]
        elif op == 'nan': v = a[0] != a[0]
        elif op == 'not': v = not a[0]
        elif op == 'and': v = all(a)
        elif op == 'bvar': v = env[a[0]]
        elif op == 'fun': v = cfun(*a)
        elif op == 'uf': v = ufs[a[0]](a[1:])
        else: raise Unsupported("eval " + op)
        val[n.id] = v
    return [g(r) for r in roots]

# ---------------------------------------------------------------- canonical conditionals
class TooBig(Exception): pass
def decision_tree(v, limit=20000):
    """v with its top-level conditionals as an ordered, reduced decision diagram over literals:
    two such values with the same leaves under the same conditions become the same node"""
    if v.__class__ is not FNode or v.op != 'ite': return v
    bm = {0: 0, 1: 1}; cnt = [0]
    # diagrams: leaf = anything not a tuple; node = (var id, hi, lo) interned
    tab = {}; lit = {}
    def lk(x): return x.id if x.__class__ in (FNode, BNode) else ('c', bits(x)) if x.__class__ is float else ('i', x)
    def dk(d): return ('n', id(d)) if d.__class__ is tuple else lk(d)
    def node(i, hi, lo):
        if hi is lo or dk(hi) == dk(lo): return hi
        k = (i, dk(hi), dk(lo)); r = tab.get(k)
        if r is None:
            cnt[0] += 1
            if cnt[0] > limit: raise TooBig()
            r = tab[k] = (i, hi, lo)
        return r
    def top(d): return d[0] if d.__class__ is tuple else 1 << 62
    def cof(d, i, b): return (d[1] if b else d[2]) if d.__class__ is tuple and d[0] == i else d
    im = {}
    def ite(c, a, b):
        if c.__class__ is int: return a if c else b
        if a is b or dk(a) == dk(b): return a
        k = (dk(c), dk(a), dk(b)); r = im.get(k)
        if r is None:
            i = min(top(c), top(a), top(b))
            r = im[k] = node(i, ite(cof(c, i, 1), cof(a, i, 1), cof(b, i, 1)), ite(cof(c, i, 0), cof(a, i, 0), cof(b, i, 0)))
        return r
    def bdd(b):
        if b.__class__ is int: return b
        r = bm.get(b.id)
        if r is None:
            if b.op == 'not': r = ite(bdd(b.args[0]), 0, 1)
            elif b.op == 'and':
                r = 1
                for x in sorted(b.args, key=lambda x: x.id): r = ite(bdd(x), r, 0)
            else: lit[b.id] = b; r = node(b.id, 1, 0)
            bm[b.id] = r
        return r
    vm = {}
    def val(n):
        if n.__class__ is not FNode or n.op != 'ite': return n
        r = vm.get(n.id)
        if r is None: r = vm[n.id] = ite(bdd(n.args[0]), val(n.args[1]), val(n.args[2]))
        return r
    om = {}
    def out(d):
        if d.__class__ is not tuple: return d
        r = om.get(id(d))
        if r is None: r = om[id(d)] = mk('ite', (lit[d[0]], out(d[1]), out(d[2])))
        return r
    try: return out(val(v))
    except TooBig: return v
