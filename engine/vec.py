"""Vectorised numeric evaluation of terms and normal forms (counterexample search)."""
import numpy as np, math
from .dag import *
from .dag import FNode, BNode
from . import dag

def _np(f):
    return lambda *a: f(*a)
_U = {'neg': np.negative, 'abs': np.abs, 'sqrt': np.sqrt, 'exp': np.exp, 'ln': np.log}
_B = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'div': np.divide, 'pow': np.power}
_F = {'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh, 'cbrt': np.cbrt, 'expm1': np.expm1, 'log1p': np.log1p, 'exp2': np.exp2,
      'log2': np.log2, 'log10': np.log10, 'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'rint': np.rint, 'round': np.round,
      'hypot': np.hypot, 'copysign': np.copysign, 'fma': lambda a, b, c: a * b + c, 'fmod': np.fmod}

def veval(roots, env, ufs=None):
    """values (arrays) of terms; env: variable -> array or float"""
    val = {}
    g = lambda x: val[x.id] if x.__class__ in (FNode, BNode) else x
    with np.errstate(all='ignore'):
        for n in topo(roots):
            op = n.op
            if op in ('var', 'bvar'): val[n.id] = env[n.args[0]]; continue
            a = [g(x) for x in n.args]
            if op in _B: v = _B[op](a[0], a[1])
            elif op in _U: v = _U[op](a[0])
            elif op == 'powi': v = np.power(np.asarray(a[0], dtype=float), float(a[1]))
            elif op == 'ite': v = np.where(a[0], a[1], a[2])
            elif op == 'olt': v = np.less(a[0], a[1])
            elif op == 'ole': v = np.less_equal(a[0], a[1])
            elif op == 'oeq': v = np.equal(a[0], a[1])
            elif op == 'nan': v = np.isnan(a[0])
            elif op == 'not': v = np.logical_not(a[0])
            elif op == 'and':
                v = True
                for x in a: v = np.logical_and(v, x)
            elif op == 'fun': v = _F[a[0]](*a[1:])
            elif op == 'uf': v = ufs[a[0]](a[1:])
            else: raise Unsupported("veval " + op)
            val[n.id] = v
    return [g(r) for r in roots]

class VecNF:
    """evaluate normal forms of a space at many points; remembers magnitudes"""
    def __init__(self, sp, env, n):
        self.sp = sp; self.env = env; self.n = n; self.memo = {}; self.pmemo = {}
    def atom(self, at):
        r = self.memo.get(at)
        if r is not None: return r
        A = self.sp.atoms[at]
        if A.kind == 'var': r = np.asarray(self.env[A.key], dtype=float) * np.ones(self.n)
        elif A.kind == 'ind': r = np.asarray(veval([A.data], self.env)[0]) * np.ones(self.n)
        elif A.kind == 'sum': r = self.eval(A.data)[0]
        elif A.kind == 'exp': r = self.eval(A.data)[0]         # the logarithm
        elif A.kind == 'ln':
            b = self.atom(A.data)
            r = b if self.sp.atoms[A.data].kind == 'exp' else np.log(b)
        else: r = np.asarray(veval([A.data], self.env)[0]) * np.ones(self.n)
        self.memo[at] = r
        return r
    def pw(self, at, e):
        k = (at, e); r = self.pmemo.get(k)
        if r is None:
            b = self.atom(at)
            if self.sp.atoms[at].kind == 'exp': r = np.exp(b * e)
            elif e == 1: r = b
            else: r = np.power(b, float(e))
            self.pmemo[k] = r
        return r
    def eval(self, a):
        """(value, sum of magnitudes)"""
        tot = np.zeros(self.n); mag = np.zeros(self.n)
        with np.errstate(all='ignore'):
            for m, c in a.items():
                v = np.full(self.n, c); ex = None; zero = None
                for at, e in m:
                    if self.sp.atoms[at].kind == 'exp':
                        t = self.atom(at) * e; ex = t if ex is None else ex + t
                    else:
                        if e > 0:
                            z = self.atom(at) == 0.0
                            zero = z if zero is None else zero | z
                        v = v * self.pw(at, e)
                if ex is not None: v = v * np.exp(ex)
                if zero is not None: v = np.where(zero, 0.0, v)
                tot = tot + v; mag = mag + np.abs(v)
        return tot, mag
