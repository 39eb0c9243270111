"""The specification: the published Helmholtz energies of AGA8-DETAIL (AGA Report
No. 8, Part 1, 2017) and GERG-2008, written down directly from the published form
(not from the program), with the coefficient tables pinned in /verif/contracts."""
import json, os, math
from engine.dag import var, fln, fexp, fpow, fpowi, FNode

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def tables(which): return json.load(open(os.path.join(HERE, 'contracts', which + '_tables.json')))
T, D = var('T'), var('D')
X = [var('x%d' % i) for i in range(21)]
EPS = 1e-15
T0 = 298.15

def lnsinh(theta):                     # ln sinh(theta/T)
    a = theta / T
    return fln((fexp(a) - fexp(-a)) / 2.0)
def lncosh(theta):
    a = theta / T
    return fln((fexp(a) + fexp(-a)) / 2.0)

def total(terms):
    r = None
    for t in terms: r = t if r is None else r + t
    return 0.0 if r is None else r

class Detail:
    name = 'detail'; x0 = 0
    def __init__(self):
        t = self.t = tables('detail'); self.R = t['R']
        self.M = t['MMI']
    def molar_mass(self, xs=X): return total(xs[i] * self.M[i] for i in range(21) if not (xs[i].__class__ is float and xs[i] == 0.0))
    def residual(self, xs=X):
        """A_r(T, D, x) in J/mol."""
        t = self.t; R = self.R
        idx = [i for i in range(21) if not (xs[i].__class__ is float and xs[i] == 0.0)]
        E, K, Gp, Q, F, S, W = t['EI'], t['KI'], t['GI'], t['QI'], t['FI'], t['SI'], t['WI']
        pairs = [(i, j) for i in idx for j in idx if i < j]
        # mixing rules
        K5 = fpow(total(xs[i] * K[i] ** 2.5 for i in idx), 2.0) + total(
            xs[i] * xs[j] * (2.0 * (t['KIJ'][i][j] ** 5 - 1.0) * (K[i] * K[j]) ** 2.5) for i, j in pairs)
        K3 = fpow(K5, 0.6)
        U5 = fpow(total(xs[i] * E[i] ** 2.5 for i in idx), 2.0) + total(
            xs[i] * xs[j] * (2.0 * (t['UIJ'][i][j] ** 5 - 1.0) * (E[i] * E[j]) ** 2.5) for i, j in pairs)
        U = fpow(U5, 0.2)
        G = total(xs[i] * Gp[i] for i in idx) + total(
            xs[i] * xs[j] * ((t['GIJ'][i][j] - 1.0) * (Gp[i] + Gp[j])) for i, j in pairs)
        Qm = total(xs[i] * Q[i] for i in idx)
        Fm = total(fpow(xs[i], 2.0) * F[i] for i in idx)
        dred = K3 * D
        terms = []
        for n in range(58):
            g, q, f, s, w, u = (t[c][n] for c in ('GN', 'QN', 'FN', 'SN', 'WN', 'UN'))
            Tu = fpow(T, -u)
            if n < 18:
                def Bn(i, j):
                    Eij = t['EIJ'][i][j] * math.sqrt(E[i] * E[j])
                    Gij = t['GIJ'][i][j] * (Gp[i] + Gp[j]) / 2.0
                    return (Gij ** g * (Q[i] * Q[j]) ** q * (F[i] * F[j]) ** f * (S[i] * S[j]) ** s
                            * (W[i] * W[j]) ** w * Eij ** u * (K[i] * K[j]) ** 1.5)
                B = total([fpow(xs[i], 2.0) * Bn(i, i) for i in idx] + [xs[i] * xs[j] * (2.0 * Bn(i, j)) for i, j in pairs])
                terms.append(B * t['AN'][n] * Tu * D)
            if n >= 12:
                C = fpow(U, u) * t['AN'][n]
                if g: C = C * G
                if q: C = C * fpow(Qm, 2.0)
                if f: C = C * Fm
                if n < 18: terms.append(-(C * Tu * dred))
                b, k = t['BN'][n], t['KN'][n]
                e = fexp(-fpow(dred, float(k))) if k else 1.0
                terms.append(C * Tu * fpow(dred, float(b)) * e)
        return total(terms) * R * T
    def ideal(self, xs=X):
        """A_0(T, D, x) in J/mol."""
        t = self.t; R = self.R; N = t['N0']; th = t['TH0I']
        D0 = 101.325 / (R * T0)
        s = []
        for i in range(21):
            if xs[i].__class__ is float and xs[i] == 0.0: continue
            a = fln(D) - math.log(D0) + fln(xs[i]) + N[i][0] + N[i][1] / T - (N[i][2] - 1.0) * fln(T)
            for k, sgn, fn in ((3, 1.0, lnsinh), (4, -1.0, lncosh), (5, 1.0, lnsinh), (6, -1.0, lncosh)):
                if th[i][k] > 0: a = a + sgn * N[i][k] * fn(th[i][k])
            s.append(xs[i] * a)
        return total(s) * R * T

class Gerg:
    name = 'gerg'; x0 = 1
    def __init__(self):
        t = self.t = tables('gerg'); self.R = t['R']
        self.M = t['MMI_GERG'][1:]
    def molar_mass(self, xs=X): return total(xs[i] * self.M[i] for i in range(21) if not (xs[i].__class__ is float and xs[i] == 0.0))
    def reducing(self, xs=X):
        t = self.t
        idx = [i for i in range(21) if not (xs[i].__class__ is float and xs[i] == 0.0)]
        DC, TC = t['DC'], t['TC']
        v = []; tt = []
        for i in idx:
            v.append(fpow(xs[i], 2.0) * (1.0 / DC[i + 1])); tt.append(fpow(xs[i], 2.0) * TC[i + 1])
            for j in idx:
                if j <= i: continue
                a, b = i + 1, j + 1
                bv, gv, bt, gt = (t[c][a][b] for c in ('bvij', 'gvij', 'btij', 'gtij'))
                w = xs[i] * xs[j] * (xs[i] + xs[j])
                v.append(w * (2.0 * bv * gv * (DC[a] ** (-1 / 3) + DC[b] ** (-1 / 3)) ** 3 / 8.0) / (xs[i] * bv ** 2 + xs[j]))
                tt.append(w * (2.0 * bt * gt * math.sqrt(TC[a] * TC[b])) / (xs[i] * bt ** 2 + xs[j]))
        return total(v), total(tt)
    def residual(self, xs=X):
        t = self.t; R = self.R
        idx = [i for i in range(21) if not (xs[i].__class__ is float and xs[i] == 0.0)]
        Vr, Tr = self.reducing(xs)
        del_ = D * Vr; tau = Tr / T
        terms = []
        for i in idx:
            a = i + 1
            # short form (propane exponents) for the secondary components
            src = a if a in (1, 2, 3, 4, 15, 18, 20) else 5
            for k in range(1, t['KPOL'][a] + t['KEXP'][a] + 1):
                d, ti, c = t['doik'][src][k], t['toik'][src][k], t['coik'][src][k]
                term = xs[i] * (t['NOIK'][a][k]) * fpow(del_, d) * fpow(tau, ti)
                if k > t['KPOL'][a]: term = term * fexp(-fpow(del_, c))
                terms.append(term)
            for j in idx:
                b = j + 1
                if j <= i or not t['MNUMB'][a][b]: continue
                m = int(t['MNUMB'][a][b]); pre = xs[i] * xs[j] * t['FIJ'][a][b]
                for k in range(1, t['KPOLIJ'][m] + t['KEXPIJ'][m] + 1):
                    term = pre * t['nijk'][m][k] * fpow(del_, t['dijk'][m][k]) * fpow(tau, t['tijk'][m][k])
                    if k > t['KPOLIJ'][m]:
                        eta, eps, beta, gam = t['cijk'][m][k], t['eijk'][m][k], t['bijk'][m][k], t['gijk'][m][k]
                        term = term * fexp(-(fpow(del_ - eps, 2.0) * eta) - (del_ - gam) * beta)
                    terms.append(term)
        return total(terms) * R * T
    def ideal(self, xs=X):
        t = self.t; R = self.R; N = t['n0i']; th = t['TH0I']; q = t['RS'] / R
        D0 = 101.325 / (R * T0)
        s = []
        for i in range(21):
            if xs[i].__class__ is float and xs[i] == 0.0: continue
            n = N[i + 1]
            # published ideal part with the older gas constant, rescaled; the linear term keeps
            # the enthalpy reference at T0 (NIST convention)
            a = fln(D) - math.log(D0) + fln(xs[i]) + q * n[1] + (q * (n[2] + T0) - T0) / T - q * (n[3] - 1.0) * fln(T)
            for k, sgn, fn in ((4, 1.0, lnsinh), (5, -1.0, lncosh), (6, 1.0, lnsinh), (7, -1.0, lncosh)):
                if th[i + 1][k] > 0: a = a + sgn * q * n[k] * fn(th[i + 1][k])
            s.append(xs[i] * a)
        return total(s) * R * T

def model(which): return Detail() if which == 'detail' else Gerg()
