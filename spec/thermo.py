"""Contracts of the delivered properties: textbook thermodynamic relations applied to
one Helmholtz energy A(T, D, x) (J/mol, D in mol/l, P in kPa, M in g/mol)."""
from functools import reduce as _red
from engine.nf import Undecided
from .helmholtz import model, X, T, D
import numpy as np

PRIMARY = ['z', 'mm', 'dp_dd', 'd2p_dd2', 'd2p_dtd', 'dp_dt', 'u', 's', 'cv', 'h', 'g']
DERIVED = ['cp', 'w', 'jt', 'kappa']

class Calc:
    """derivatives and products in a normal-form space"""
    def __init__(self, sp): self.sp = sp; self.T = sp.var('T'); self.D = sp.var('D')
    def inv(self, a): return self.sp.power(a, -1)
    def mul(self, *a): return _red(self.sp.mul, a)
    def dD(self, a): return self.sp.diff(a, self.sp.vD)
    def dT(self, a): return self.sp.reduce(self.sp.diff(a, self.sp.vT))
    def add(self, a, b, s=1.0): return self.sp.add(a, b, s)
    def scale(self, a, c): return self.sp.scale(a, c)

def derived(c, R, cv, pd, pt, z, mm):
    """cp, w^2, jt, kappa from the primary ones"""
    cp = c.add(cv, c.mul(c.T, pt, pt, c.inv(c.mul(c.D, c.D)), c.inv(pd)))
    w2 = c.scale(c.mul(cp, c.inv(cv), pd, c.inv(mm)), 1000.0)
    jt = c.mul(c.add(c.mul(c.T, c.inv(c.D), pt, c.inv(pd)), {(): -1.0}), c.inv(cp), c.inv(c.D))
    kappa = c.mul(w2, mm, c.inv(c.scale(c.mul(c.T, c.scale(z, R)), 1000.0)))
    return dict(cp=cp, w2=w2, jt=jt, kappa=kappa)

def spec(sp, which, xs=X):
    """normal forms of all properties for a density above the cut-off"""
    M = model(which); c = Calc(sp); R = M.R
    ar = sp.of(M.residual(xs)); a0 = sp.of(M.ideal(xs)); A = sp.add(ar, a0)
    P = c.add(c.mul(c.D, c.D, c.dD(ar)), c.scale(c.mul(c.D, c.T), R))
    S = c.scale(c.dT(A), -1.0)
    U = c.add(A, c.mul(c.T, S))
    CV = c.mul(c.T, c.dT(S))
    PD = c.dD(P); PT = c.dT(P)
    PV = c.mul(P, c.inv(c.D))
    out = dict(P=P, z=c.mul(P, c.inv(c.scale(c.mul(c.D, c.T), R))), mm=sp.of(M.molar_mass(xs)), dp_dd=PD, d2p_dd2=c.dD(PD),
               d2p_dtd=c.dT(PD), dp_dt=PT, u=U, s=S, cv=CV, h=c.add(U, PV), g=c.add(A, PV), a=A)
    return out, R

def pressure_spec(sp, which, xs=X):
    M = model(which); c = Calc(sp)
    ar = sp.of(M.residual(xs)); d = c.dD(ar)
    z = c.add({(): 1.0}, c.mul(c.D, c.scale(c.mul(d, c.inv(c.T)), 1.0 / M.R)))
    return dict(P=c.add(c.mul(c.D, c.D, d), c.scale(c.mul(c.D, c.T), M.R)), z=z), M.R

def numeric(which, env, n, names):
    """values and error scales of the specified properties at many states"""
    from engine.real import RealSpace
    from engine.vec import VecNF
    sp = _cache.get(which)
    if sp is None:
        s = RealSpace(which, 'pos'); sp = _cache[which] = (s,) + spec(s, which)
    s, out, R = sp
    V = VecNF(s, env, n)
    val = {}; mag = {}
    for k in set(names) | ({'P', 'dp_dd', 'dp_dt', 'cv', 'z', 'mm'} if set(names) & set(DERIVED) else set()):
        if k in out: val[k], mag[k] = V.eval(out[k])
    if set(names) & set(DERIVED):
        with np.errstate(all='ignore'):
            T_, D_ = env['T'], env['D']
            pd, pt, cv, mm, z = (val[k] for k in ('dp_dd', 'dp_dt', 'cv', 'mm', 'z'))
            rel = sum(mag[k] / np.abs(val[k]) for k in ('dp_dd', 'dp_dt', 'cv', 'z'))
            cp = cv + T_ * (pt / D_) ** 2 / pd
            w2 = 1000 * cp / cv * pd / mm
            val['cp'] = cp; mag['cp'] = (np.abs(cv) + np.abs(cp - cv)) * rel
            val['w'] = np.sqrt(np.where(w2 < 0, 0.0, w2)); mag['w'] = np.where(np.abs(w2) > 0, val['w'] * rel * mag['cp'] / np.abs(cp), 1e300)
            mag['w'] = np.where(w2 < 0, np.abs(w2) ** 0.5 * rel, mag['w'])
            jtn = T_ / D_ * pt / pd
            val['jt'] = (jtn - 1) / cp / D_; mag['jt'] = (np.abs(jtn) + 1) / np.abs(cp) / D_ * rel * mag['cp'] / np.abs(cp)
            val['kappa'] = np.where(w2 < 0, 0.0, w2) * mm / (R * T_ * 1000 * z); mag['kappa'] = np.abs(w2) * mm / np.abs(R * T_ * 1000 * z) * rel * mag['cp'] / np.abs(cp)
    return val, mag
_cache = {}
