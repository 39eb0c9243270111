"""C10, C11: what density() reports and leaves behind, on every exit of the search."""
import time, math
import numpy as np, z3
from engine.check import *
from engine.dag import FNode, BNode, ipairs, topo, children, evalf
from engine.real import RealSpace
from engine.nf import NFSpace, Undecided
from engine import fpz3
from spec.thermo import pressure_spec, Calc
from spec.helmholtz import model
from .dens import *

NAMES = {0: 'Ok', 1: 'IterationFail', 2: 'PressureTooLow', 3: 'Err(Ok)'}
TOL = 1e-7

def cut(root, f, memo=None):
    """rebuild root top-down: f(node) gives a replacement (not descended into) or None"""
    memo = {} if memo is None else memo
    def go(n):
        if n.__class__ not in (FNode, BNode): return n
        if n.id in memo: return memo[n.id]
        r = f(n)
        if r is None:
            if n.__class__ is BNode: r = n if not n.args or n.op == 'bvar' else dag.subst(n, {}, None) if False else rebuild_b(n, [go(a) for a in n.args])
            else: r = n if n.op == 'var' else dag.rebuild(n, [go(a) for a in n.args])
        memo[n.id] = r
        return r
    return go(root)
def rebuild_b(n, a):
    return {'not': lambda: dag.bnot(*a), 'and': lambda: dag.band(*a), 'nan': lambda: dag.isnan(*a), 'olt': lambda: dag.olt(*a), 'ole': lambda: dag.ole(*a), 'oeq': lambda: dag.oeq(*a)}[n.op]()

class Search:
    """meaning of the terms that occur in a run of density()"""
    def __init__(self, ck, which):
        self.ck = ck; self.which = which; self.M = model(which); self.R = self.M.R
        self.ops = Ops(ck, which)
        self.body = {}
        self.sp = RealSpace(which, 'any')
        ps, R = pressure_spec(self.sp, which); c = Calc(self.sp)
        self.spec = dict(P=ps['P'], Q=c.dD(ps['P']))
        self.env = []
        for T, D in ((317.0, 1.7), (251.0, 9.1)):
            e = dict(T=T, D=D)
            for i in range(21): e['x%d' % i] = (1.0 + (0.13 if T > 300 else 0.21) * i) / 48.3
            m = {}; self.env.append((e, {k: self.sp.eval(v, e, m) for k, v in self.spec.items()}))
        self.roles = {}
        for e in self.ops.evs:
            op = e.label
            o = ck.ctx.fresh(which); o.set_state(x=symbols(), t=var('T'), d=var('D'), p=var('P')); rs = e.call(o, var('D'))
            _, b, a, _ = self.ops.runs[op]
            self.body[op] = rs[0] if rs else None
            if len(rs) > 1:
                for j, v in enumerate(rs): self.body[(op, -1 - j)] = v
            for k in changed(b, a): self.body[(op, k)] = o.S.load(o.base + k, 8, True)
    def resolve(self, q, D0):
        """q over the variables x, T, D where D stands for the density D0; None if it is not such a term"""
        T = var('T'); X = symbols(); bad = []
        def f(n):
            if n is D0: return var('D')
            if n.op == 'uf':
                if n.args[1] is not D0 or n.args[2] is not T or any(a is not x for a, x in zip(n.args[3:], X)): bad.append(n); return n
                p = n.args[0].split('_'); return self.body[p[0]] if len(p) == 2 else self.body[(p[0], int(p[2]))]
            if n.op == 'var' and n.args[0] in ('P', 'Din'): bad.append(n); return n
            return None
        r = cut(q, f)
        return None if bad else r
    def role(self, q, D0):
        """'P' or 'Q' if q is the pressure, or its slope, at density D0"""
        s = self.resolve(q, D0)
        if s is None or s.__class__ is not FNode: return None
        r = self.roles.get(s.id)
        if r is None:
            r = self.roles[s.id] = self._role(s) or 0
        return r or None
    def _role(self, s):
        try: v = [evalf([s], e)[0] for e, _ in self.env]
        except Exception: return None
        for k in ('P', 'Q'):
            if all(abs(a - w[k]) <= 1e-8 * (abs(w[k]) + 1e-3) for a, (e, w) in zip(v, self.env)):
                t = time.time()
                try: ok = self.sp.equal(self.sp.of(s), self.spec[k]) is None
                except Undecided as e: ok = False
                nm = {'P': 'pressure', 'Q': 'd(pressure)/d(density)'}[k]
                self.ck.backend_time['nf'] = self.ck.backend_time.get('nf', 0) + time.time() - t
                if ok: self.ck.ob('%s: quantity used by the search is the specified %s' % (TITLE[self.which], nm), True, 'nf'); return k
                self.near = getattr(self, 'near', []) + [k]
        return None
    def newton(self, X, D0):
        """(P node, Q node) if X is plus or minus (ln P - ln p) P/(D0 Q) at D0"""
        pq = {}
        def f(n):
            if n is D0: return var('d0')
            if n.__class__ is FNode and n.op != 'var' and any(q is D0 for q in reach_d(n, D0)):
                r = self.role(n, D0) if n.op in ('uf', 'mul', 'add', 'sub', 'div', 'ite', 'neg') else None
                if r: pq.setdefault(r, n); return var(r + '0')
            return None
        s = cut(X, f)
        if set(pq) != {'P', 'Q'} or s.__class__ is not FNode: return None
        sp = NFSpace()
        try:
            a = sp.of(s)
            P0, Q0, d0, P = (var(n) for n in ('P0', 'Q0', 'd0', 'P'))
            w = sp.of((dag.fln(P0) - dag.fln(P)) * P0 / (d0 * Q0))
            if sp.equal(a, w) is None or sp.equal(sp.scale(a, -1.0), w) is None: return pq['P'], pq['Q']
        except Undecided: pass
        return None

_reach = {}
def reach_d(n, D0):
    """[D0] if D0 occurs in n"""
    k = (n.id, D0.id)
    r = _reach.get(k)
    if r is None:
        r = [D0] if n is D0 else next((q for q in (reach_d(c, D0) for c in children(n)) if q), [])
        _reach[k] = r
    return r

def lits(b):
    return [n for n in topo([b]) if n.__class__ is BNode and n.op in ('olt', 'ole')] if b.__class__ is BNode else []

def collapse(ord_, hyps, t):
    """t with its top-level conditionals decided by the hypotheses"""
    while t.__class__ is FNode and t.op == 'ite':
        if ord_.implies(hyps, t.args[0]): t = t.args[1]
        elif ord_.implies(hyps, dag.bnot(t.args[0])): t = t.args[2]
        else: break
    return t

def top_ite(t, keep=()):
    """an outermost conditional of t"""
    st = [t]; seen = set()
    while st:
        n = st.pop(0)
        if n.__class__ is not FNode or n.id in seen or n.id in keep: continue
        seen.add(n.id)
        if n.op == 'ite': return n
        st.extend(c for c in n.args if c.__class__ is FNode)
    return None

def decide(ord_, hyps, t, keep=()):
    """t with the conditionals decided by the hypotheses resolved, outermost first"""
    def f(n):
        if n.id in keep or n.__class__ is FNode and n.op == 'uf': return n
        if n.__class__ is FNode and n.op == 'ite':
            for c, v in ((n.args[0], n.args[1]), (dag.bnot(n.args[0]), n.args[2])):
                if ord_.implies(hyps, c): return cut(v, f)
            return n
        return None
    return cut(t, f)

def cases(ord_, hyps, t, ok, depth=0, keep=()):
    """[] if in every case allowed by the hypotheses ok(value, hyps) holds, else a list of failures"""
    if ok(t, hyps): return []
    it = top_ite(t, keep)
    if it is None or depth > 130: return [dag.fstr(t, 5)[:200]]
    c = it.args[0]; out = []
    for cc, v in ((c, it.args[1]), (dag.bnot(c), it.args[2])):
        h = hyps + [cc]
        if ord_.implies(h, 0): continue
        out += cases(ord_, h, cut(t, lambda n: v if n is it else n if n.id in keep else None), ok, depth + 1, keep)
        if len(out) > 3: break
    return out

def opaque(sp_memo, extra):
    """cut conditionals and the nodes in extra to variables"""
    def f(n):
        if n.id in extra: return var(extra[n.id])
        if n.__class__ is FNode and n.op == 'ite': return var('c%d' % n.id)
        return None
    return f

def lnnf(sp, t, extra):
    return sp.ln(sp.of(cut(t, opaque(None, extra))))

def nfequal(t, want):
    sp = NFSpace()
    try: return sp.equal(sp.of(cut(t, opaque(None, {}))), sp.of(want)) is None
    except Undecided: return False

def run_density(ck, S, args, positive=False):
    """density() on a new object with arbitrary public state; its calls by contract"""
    which = S.which
    def start():
        o = ck.ctx.fresh(which); o.set_state(x=symbols(), t=var('T'), d=var('Din'), p=var('P'))
        return o
    if positive:
        o = start(); counts = {}; S.ops.hook(o, counts)
        fn = find_fn(ck.ctx, TITLE[which] + '::properties'); h = o.E.hooks.get(fn)
        outs = [o.off[f] for f in OUT]
        def g(E, St, a):
            r = h(E, St, a)
            for k in outs: St.store(o.base + k, 8, 1.0)
            return None if r is None else 1.0
        if fn: o.E.hooks[fn] = g
        r = o.call('density', *[a & I32 for a in args]); return o, r, counts, 'contract'
    o, b, a, r, counts, mode = density(ck, S.ops, which, args, start)
    return o, r, counts, mode

def densities(o, roots):
    """candidate trial densities: the densities at which pressure or properties were taken"""
    out = []; seen = set()
    for n in topo([r for r in roots if r.__class__ in (FNode, BNode)]):
        if n.__class__ is FNode and n.op == 'uf' and n.args[1].__class__ is FNode and n.args[1].id not in seen: seen.add(n.args[1].id); out.append(n.args[1])
    return out

def exits(ck, S, args):
    which = S.which; cn = TITLE[which]; tag = '%s::density(%s)' % (cn, ', '.join(map(str, args))); t = time.time()
    o, r, counts, mode = run_density(ck, S, args); ck.ran(o.E)
    ck.hints += [c for v, c in ipairs(r) if c.__class__ is BNode]
    if mode != 'contract' or not S.ops.evaluations(counts):
        ck.ob(tag + ': the search evaluates the equation through pressure()', False, 'vcgen', 'calls %s' % counts); return
    C = dict(ipairs(r)); ok = C.get(0, 0); fail = C.get(1, 0); low = C.get(2, 0)
    codes = {0, 1, 2} if which == 'detail' else {0, 1}
    O = fpz3.Ord(); d = o.get('d')
    ck.ob(tag + ': result is ' + ' or '.join(NAMES[k] for k in sorted(codes)), all(k in codes or O.implies([c], 0) for k, c in C.items()), 'z3-ord', str(sorted(C)), time.time() - t)
    P, T, Din = var('P'), var('T'), var('Din'); ideal = P / S.R / T
    hyp_fin = []
    # --- failures
    if which == 'detail':
        t = time.time()
        n, x = O.term(P); small = z3.And(z3.Not(n), x < O.term(1e-15)[1], x > O.term(-1e-15)[1])
        ck.ob(tag + ': PressureTooLow exactly when |P| < 1e-15', O.implies([], O.go(low) == small), 'z3-ord', dag.bstr(low, 3) if low.__class__ is BNode else str(low), time.time() - t)
        t = time.time(); f = cases(O, [low], d, lambda v, h: v.__class__ is float and v == 0.0) if low.__class__ is BNode else []
        ck.ob(tag + ': PressureTooLow leaves density 0', not f, 'z3-ord', f, time.time() - t)
    t = time.time(); f = cases(O, [fail], d, lambda v, h: nfequal(v, ideal)) if fail.__class__ is BNode else []
    ck.ob(tag + ': IterationFail leaves the ideal-gas density P/(R T)', not f, 'nf+z3-ord', f, time.time() - t)
    # --- success
    t = time.time()
    if ok.__class__ is not BNode: ck.ob(tag + ': Ok is reachable', False, 'vcgen'); return
    Ds = densities(o, [ok, d]); steps = []
    for l in lits(ok):
        for x, c in (l.args, l.args[::-1]):
            if c.__class__ is not float or x.__class__ is not FNode: continue
            while x.op in ('abs', 'neg'): x = x.args[0]
            if any(s[0] is x for s in steps) or x.op == 'uf' or x.op == 'var': continue
            for D0 in Ds:
                if not any(n.op == 'uf' and n.args[1] is D0 for n in near(x)): continue
                pq = S.newton(x, D0)
                if pq: steps.append((x, D0) + pq)
    good = [z3.And(O.between(x, -TOL, TOL), O.gt(p), O.gt(q)) for x, D0, p, q in steps]
    ck.reach.append('%s: %d trial densities, %d convergence tests recognised' % (tag, len(Ds), len(steps)))
    ck.ob(tag + ': the search tests a Newton step in ln v for convergence', bool(steps), 'nf', 'no comparison of a Newton step found', time.time() - t)
    memo = {}; frozen = {x.id for x, D0, p, q in steps}
    def fits(v, x, D0):
        """v is D0 or one step x away from it (in ln v)"""
        if v is D0: return True
        sp = NFSpace(); e = {x.id: 'X'}
        try:
            df = sp.reduce(sp.add(lnnf(sp, v, e), lnnf(sp, D0, e), -1.0)); X = sp.of(var('X'))
            return not df or sp.equal(df, X) is None or sp.equal(sp.scale(df, -1.0), X) is None
        except Undecided: return False
    def match(v, h):
        if v.__class__ is not FNode: return False
        if v.id not in memo:
            ids = {n.id for n in near(v)}
            memo[v.id] = [(k, fits(v, x, D0)) for k, (x, D0, p, q) in enumerate(steps) if D0 is v or x.id in ids or D0.id in ids]
        m = [k for k, b in memo[v.id] if b or fits(decide(O, h, v, frozen), steps[k][0], decide(O, h, steps[k][1], frozen))]
        return bool(m) and O.implies(h, z3.Or(*[good[k] for k in m]))
    t = time.time(); f = cases(O, [ok], d, match, 0, frozen)
    ck.ob(tag + ': Ok only within one converged Newton step of a trial density where P > 0 and dP/dD > 0', not f, 'nf+z3-ord', f, time.time() - t)
    # --- start estimate
    t = time.time(); first = Ds[0] if Ds else None
    flag = args[0] if args else 0
    est = ideal; three = None; dom = []
    rs = RealSpace(which, 'any')
    if which == 'gerg':
        DC = S.M.t['DC']; vc = None
        for i in range(21): q = var('x%d' % i) / float(DC[i + 1]); vc = q if vc is None else vc + q
        vcn = rs.of(vc); three = rs.of(3.0 / vc)
        if flag == 2: est = None
    n, x = O.term(Din); neg = z3.Or(n, x <= O.term(-1e-15)[1]); pos = z3.Or(n, x >= O.term(-1e-15)[1])
    def volume(v):
        """fact of the domain: sum of x/Dc is above 0.05 (the largest Dc is below 18)"""
        for b in [n for n in topo([v]) if n.__class__ is BNode and n.op in ('olt', 'ole')]:
            for q in b.args:
                if q.__class__ is FNode and not any(m.op == 'uf' or m.op == 'var' and m.args[0] in ('P', 'Din') for m in near(q)):
                    try: ok = rs.equal(rs.of(q), vcn) is None
                    except Undecided: ok = False
                    if ok: yield O.gt(q, 0.05)
    def logv(h):
        """terms compared in h that are plain logarithms of a density or volume"""
        for b in h:
            for l in lits(b) if b.__class__ is BNode else []:
                for q in l.args:
                    m = q.args[0] if q.__class__ is FNode and q.op == 'neg' else q
                    if m.__class__ is FNode and m.op == 'ln': yield q
    def undefined(v, h):
        """h makes the start NaN, and the stated one too"""
        while v.__class__ is FNode and v.op in ('exp', 'ln', 'neg', 'abs', 'sqrt'): v = v.args[0]
        if v.__class__ is not FNode or v.op == 'ite': return False
        return O.implies(h, O.term(v)[0]) and (O.implies(h, n) or est is not None and O.implies(h, z3.And(pos, O.term(est)[0])))
    def start_ok(v, h):
        if v.__class__ is not FNode: return False
        sp = NFSpace(); e = {dag.fabs_(Din).id: 'A', dag.fneg(Din).id: 'A'}
        try:
            a = sp.of(cut(v, opaque(None, e)))
            if undefined(v, h): return True
            if sp.equal(a, sp.scale(sp.of(Din), -1.0)) is None or sp.equal(a, sp.of(var('A'))) is None: return O.implies(h, neg)
            if flag != 2 and sp.equal(a, sp.of(est)) is None: return O.implies(h, pos)
            if three is None or rs.equal(rs.of(v), three) is not None: return False
            if flag == 2 and O.implies(h, pos): return True
            # an estimate outside the densities searched is given up at once
            return any(O.implies(h, z3.Not(O.between(l, -7.0, 100.0))) for l in logv(h))
        except Undecided: return False
    if first is None: ck.ob(tag + ': start of the search', False, 'vcgen', 'no trial density'); return
    f = cases(O, list(volume(first)) if three is not None else [], first, start_ok)
    ck.ob(tag + ': search starts at the magnitude of a density of -1e-15 or less, else at the %s' % ('liquid estimate 3 Dc' if flag == 2 else 'ideal-gas density'), not f, 'nf+z3-ord', f, time.time() - t)
    if which == 'gerg': phase(ck, S, o, r, counts, ok, d, O, tag, flag, args)

_near = {}
def near(t):
    """nodes of t reachable without passing through a conditional or an argument of a contract value"""
    r = _near.get(t.id)
    if r is None:
        seen = set(); st = [t]; r = []
        while st:
            n = st.pop()
            if n.__class__ is not FNode or n.id in seen: continue
            seen.add(n.id); r.append(n)
            if n.op in ('ite', 'uf'): continue
            st.extend(n.args)
        _near[t.id] = r
    return r

def phase(ck, S, o, r, counts, ok, d, O, tag, flag, args):
    t = time.time(); off = o.off
    if flag <= 0:
        used = {n.args[0].split('_')[0] for n in topo([c for v, c in ipairs(r) if c.__class__ is BNode]) if n.__class__ is FNode and n.op == 'uf'}
        ck.ob(tag + ': no phase check', 'properties' not in used, 'structural', str(used), time.time() - t); return
    dok = collapse(O, [ok], d); X = symbols()
    at = {}; bad = []
    for f in OUT:
        v = collapse(O, [ok], o.get(f)); at[f] = v
        if not (v.__class__ is FNode and v.op == 'uf' and v.args[0].startswith('properties_') and v.args[0].endswith('_%d' % off[f]) and v.args[1] is dok
                and v.args[2] is var('T') and all(a is x for a, x in zip(v.args[3:], X))): bad.append(f)
    ck.ob(tag + ': Ok leaves the properties evaluated at the density returned', not bad, 'structural', 'not for %s; density %s' % (bad, dag.fstr(dok, 3)), time.time() - t)
    t = time.time()
    if bad: return
    i = at['z'].args[0].split('_')[1]; pv = dag.uf('properties_' + i, at['z'].args[1:])
    six = dict(P=pv, **{f: at[f] for f in ('dp_dd', 'd2p_dtd', 'cv', 'cp', 'w')})
    def pos(v):
        n, x = O.term(v); return z3.Or(n, x > 0)
    for f, v in six.items():
        ck.ob(tag + ': Ok only if %s at the density returned is not zero or negative' % f, O.implies([ok], pos(v)), 'z3-ord', '', time.time() - t); t = time.time()
    o2, r2, c2, m2 = run_density(ck, S, args, positive=True)
    conv = dict(ipairs(r2)).get(0, 0)
    ck.ob(tag + ': Ok whenever the search converges and all six are positive', O.implies([conv] + [O.gt(v) for v in six.values()], ok), 'z3-ord', '', time.time() - t)
    ck.ob(tag + ': Ok only if the search converges', O.implies([ok], conv), 'z3-ord')
    if flag != 2:
        o3, r3, c3, m3 = run_density(ck, S, (0,))
        ck.ob(tag + ': the search itself is the one with flag 0', fpz3.int_same(r3, r2) or O.implies([], O.go(dict(ipairs(r3)).get(0, 0)) == O.go(conv)), 'z3-ord', '', time.time() - t)

def run(ck):
    which = 'detail' if ck.pid == 'C10' else 'gerg'; cn = TITLE[which]
    ck.assumptions += [ARITH_REAL + " (for the formulas: Newton step, returned density, ideal-gas density, pressure and slope); the comparisons that choose between exits are decided over doubles including NaN and infinities",
        "the contract is over a newly created object with arbitrary public state (every temperature, pressure, density and composition); independence of earlier calls is property C12/C13",
        "calls to pressure() and properties() are replaced by their contracts: results and changed cells are functions of density, temperature and composition",
        "the identification of the searched quantities with the published pressure and its slope holds on the domain T > 0, D >= 0, mole fractions 0 or positive (GERG-2008: above 1e-15) summing to 0.99..1.01"]
    ck.contracts += [cn + '::density', cn + '::pressure'] + ([cn + '::properties', cn + '::pseudocriticalpoint'] if which == 'gerg' else [])
    def go():
        S = Search(ck, which)
        # the meaning of what pressure() delivers, established once
        p = dag.uf('pressure_0', [var('D'), var('T')] + symbols())
        S.role(p, var('D'))
        for k in [k for k in S.body if k.__class__ is tuple and k[0] != 'properties']:
            v = S.body[k]
            if v.__class__ is FNode: S.role(dag.uf('%s_0_%d' % k, [var('D'), var('T')] + symbols()), var('D'))
        for k in getattr(S, 'near', []): ck.ob('%s::pressure: what it delivers equals the specified %s' % (cn, k), False, 'nf')
        if which == 'detail': exits(ck, S, ())
        else:
            def one(f):
                sub = Sub(ck); sub.backend_time = {}; S.ck = sub; exits(sub, S, (f,)); return sub.data()
            each(ck, cn + '::density', one, flag_classes(ck.ctx))
    ck.attempt(cn + '::density', go)
    return ck.finish(lambda k, nat: find(k, nat, which))

# ---------------------------------------------------------------- counterexamples
def find(ck, nat, which):
    """real searches judged by the specified pressure, its slope and the delivered properties"""
    from engine.search import Sampler
    from spec import thermo
    from .dens import TITLE
    rng = np.random.default_rng(ck.seed); end = time.time() + 150; R = model(which).R
    flags = [None] if which == 'detail' else [0, 1, 2, -1, 3]
    rnd = 0
    while time.time() < end and rnd < 12:
        rnd += 1
        S = Sampler(ck.seed + rnd, 1500, xlo=0.0 if which == 'detail' else 1e-15, trange=(60.0, 900.0)); sc = []
        for k in range(S.n):
            x = S.x(k)
            if rng.random() < .4: x = [0.0] * 21; x[int(rng.choice([0, 1, 2, 3, 4, 5, 17, 14, 19]))] = 1.0
            T = float(S.env['T'][k]) if rng.random() < .5 else float(rng.uniform(90, 450)); P = float(10 ** rng.uniform(-3, 5.3)); D = 0.0
            q = rng.random()
            if q < .25: D = -float(10 ** rng.uniform(-4, 1.6))
            elif q < .35: D = float(10 ** rng.uniform(-3, 1.5))
            elif q < .38: D = float(rng.choice([-1e-16, -1e-14, -1e-20, 1e-16]))
            q = rng.random()
            if q < .04: P = float(rng.choice([0.0, -0.0, 1e-16, -1e-16, 9.9e-16, 1.1e-15, -1.0, -5e3, 1e-14, 1e9, 1e12, math.nan, math.inf]))
            f = flags[int(rng.integers(len(flags)))]; sc.append((x, T, P, D, f))
        scripts = [dict(which=which, steps=[['new', 'a'], ['set', 'a', dict(x=x, t=T, p=P, d=D)], ['call', 'a', 'density'] + ([] if f is None else [f]), ['get', 'a', ['d'] + OUT],
                        ['new', 'b'], ['set', 'b', dict(x=x, t=T, p=P)], ['new', 'c'], ['set', 'c', dict(x=x, t=T, p=P, d=D)]] +
                        ([] if f is None else [['call', 'c', 'density', 0], ['get', 'c', ['d']]])) for x, T, P, D, f in sc]
        res = nat.run(scripts, until=end + 20)
        rows = []
        for (x, T, P, D, f), s, r in zip(sc, scripts, res):
            if isinstance(r, dict): return dict(what='%s::density: %s' % (TITLE[which], r['crash']), script=s)
            rows.append((x, T, P, D, f, s, r[0], r[1]))
        desc = lambda q: '%s::density(%s) at T=%r, P=%r, D=%r, x=%s' % (TITLE[which], '' if q[4] is None else q[4], q[1], q[2], q[3], {GASES[i]: v for i, v in enumerate(q[0]) if v})
        okr = [q for q in rows if q[6] == 0]
        for q in rows:
            x, T, P, D, f, s, c, out = q; d = out[0]
            if which == 'detail' and (c == 2) != (abs(P) < 1e-15): return dict(what='%s: %s' % (desc(q), NAMES.get(c, c)), script=s)
            if c == 2 and which == 'gerg' or c not in (0, 1, 2): return dict(what='%s: returns %s' % (desc(q), NAMES.get(c, c)), script=s)
            if c == 2 and d != 0: return dict(what='%s: PressureTooLow leaves density %r' % (desc(q), d), script=s)
            if c == 1 and not (abs(d - P / R / T) <= 1e-12 * abs(d) or (d != d and P != P) or d == P / R / T): return dict(what='%s: IterationFail leaves density %r, P/(RT) is %r' % (desc(q), d, P / R / T), script=s)
        if okr:
            n = len(okr); env = {'x%d' % i: np.array([q[0][i] for q in okr]) for i in range(21)}
            env['T'] = np.array([q[1] for q in okr]); env['D'] = np.array([q[7][0] for q in okr])
            val, mag = thermo.numeric(which, env, n, {'P', 'dp_dd'})
            for k, q in enumerate(okr):
                p, Q, d, P = float(val['P'][k]), float(val['dp_dd'][k]), q[7][0], q[2]
                if not (math.isfinite(p) and math.isfinite(Q)): continue
                slack = 1e-9 * float(mag['P'][k]) / (abs(p) + 1e-300)
                if slack > 1e-4: continue
                if not (p > 0 and (Q > -1e-6 * float(mag['dp_dd'][k])) and abs((math.log(p) - math.log(P) if P > 0 else math.inf) * p) <= (1e-4 + slack) * d * max(Q, 1e-4 * float(mag['dp_dd'][k]))):
                    return dict(what='%s: Ok with density %r, where the pressure is %r and its slope %r' % (desc(q), d, p, Q), script=q[5])
            more = [dict(which=which, steps=[['new', 'a'], ['set', 'a', dict(x=q[0], t=q[1], p=q[2], d=q[7][0])], ['call', 'a', 'properties'], ['get', 'a', OUT + ['p']]]) for q in okr if q[4] and q[4] > 0]
            for q, s, r in zip([q for q in okr if q[4] and q[4] > 0], more, nat.run(more, until=end + 20)):
                if isinstance(r, dict): continue
                w = dict(zip(OUT, r[1])); bad = [f for f in OUT if not (w[f] == q[7][1 + OUT.index(f)] or w[f] != w[f])]
                if bad: return dict(what='%s: Ok, but %s is left as %r and is %r at the density returned' % (desc(q), bad[0], q[7][1 + OUT.index(bad[0])], w[bad[0]]), script=q[5])
                neg = [f for f in ('dp_dd', 'd2p_dtd', 'cv', 'cp', 'w') if w[f] <= 0] + (['P'] if r[0] <= 0 else [])
                if neg: return dict(what='%s: Ok although %s at the density returned is not positive' % (desc(q), neg[0]), script=q[5])
        if which == 'gerg':      # with a positive flag Ok exactly when flag 0 converges and the six are positive
            both = [(q, res[k][2], res[k][3]) for k, q in enumerate(rows) if q[4] in (1, 3) and res[k][2] == 0]
            st = [dict(which=which, steps=[['new', 'a'], ['set', 'a', dict(x=q[0], t=q[1], p=q[2], d=g[0])], ['call', 'a', 'properties'], ['get', 'a', OUT]]) for q, c0, g in both]
            for (q, c0, g), r in zip(both, nat.run(st, until=end + 20)):
                if isinstance(r, dict): continue
                w = dict(zip(OUT, r[1])); pos = r[0] > 0 and all(w[f] > 0 for f in ('dp_dd', 'd2p_dtd', 'cv', 'cp', 'w'))
                if pos != (q[6] == 0): return dict(what='%s: %s, but flag 0 converges at %r where the six properties are %spositive' % (desc(q), NAMES[q[6]], g[0], '' if pos else 'not all '), script=q[5])
    return None
