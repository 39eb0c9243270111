"""C04, C06-C09, C16: values of molar mass, pressure, compressibility and all
properties against the published Helmholtz energy, over exact real arithmetic."""
import time, math
import numpy as np
from engine.check import *
from engine.real import RealSpace
from engine.nf import Undecided
from engine.vec import VecNF
from spec import thermo
from spec.thermo import Calc, spec, pressure_spec, derived, PRIMARY, DERIVED
from spec.helmholtz import model
from engine.search import Sampler, conditions

TITLE = {'detail': 'Detail', 'gerg': 'Gerg2008'}
DOMAIN = "domain of the contracts: T > 0; every mole fraction 0 or positive (GERG-2008: 0 or above 1e-15), summing to 0.99..1.01; "

def execute(ck, which, op, xs=None, D=None, T=None, name=None):
    """fresh object, symbolic public state, one operation; returns object and result"""
    o = ck.ctx.fresh(which)
    o.set_state(x=xs or symbols(), t=var('T') if T is None else T, d=var('D') if D is None else D, p=var('P'))
    r = o.call(op)
    ck.ran(o.E)
    return o, r

def pressure_obs(ck, which):
    cn = TITLE[which]
    ck.contracts += [cn + '::pressure', cn + '::properties']
    for dc, D in (('any', None), ('zero', 0.0)):
        for op in ('pressure', 'properties'):
            tag = '%s::%s, D %s' % (cn, op, '>= 0' if dc == 'any' else '= 0')
            def go():
                t = time.time()
                if op == 'properties' and dc == 'any': dcase = 'pos'
                else: dcase = 'any'
                o, r = execute(ck, which, op, D=D)
                ck.noreports(o.E, tag + ': no panic or invalid access')
                sp = RealSpace(which, dcase)
                ps, R = pressure_spec(sp, which)
                z = sp.of(o.get('z'))
                if op == 'pressure': p = sp.of(r); names = [('result = P', p)]; ck.hints += [r]
                elif which == 'detail': names = [('field p = P', sp.of(o.get('p')))]; ck.hints += [o.get('p')]
                else: names = [('result = P', sp.of(r))]; ck.hints += [r]
                ck.hints.append(o.get('z'))
                if dc == 'zero':
                    ck.ob(tag + ': P = 0', not names[0][1], 'nf', sp.str(names[0][1])[:300], time.time() - t)
                    ck.ob(tag + ': z = 1', sp.equal(z, {(): 1.0}) is None, 'nf', sp.str(z)[:300]); return
                for nm, v in names:
                    d = sp.equal(v, ps['P']); ck.ob('%s: %s' % (tag, nm), d is None, 'nf', sp.str(d)[:600] if d else '', time.time() - t)
                d = sp.equal(z, ps['z']); ck.ob(tag + ': z', d is None, 'nf', sp.str(d)[:600] if d else '')
                c = Calc(sp)
                d = sp.equal(names[0][1], c.mul(z, c.D, c.T, {(): R})); ck.ob(tag + ': P = z D R T', d is None, 'nf', sp.str(d)[:300] if d else '')
                ck.reach.append('%s: specification has %d terms, %d nodes translated' % (tag, len(ps['z']), sp.nodes_done))
            try: ck.attempt(tag, go)
            except Undecided as e: ck.ob(tag, False, 'nf', e)
    pure_patterns(ck, which, ['pressure'])

def pure_patterns(ck, which, ops):
    """every subset of at most two absent gases occurs in some pure gas: no operation on absent
    gases may leave the domain of definition, and values equal the specification"""
    cn = TITLE[which]
    def one(k):
        res = []
        for op in ops:
            xs = [0.0] * 21; xs[k] = var('x%d' % k)
            o, r = execute(ck, which, op, xs=xs)
            sp = RealSpace(which, 'pos', pure=k)
            t = time.time()
            if op == 'pressure':
                ps, R = pressure_spec(sp, which, xs)
                pairs = [('P', r, ps['P']), ('z', o.get('z'), ps['z'])]
            else:
                try: val, sv = property_values(sp, which, o, xs)
                except Undecided as e: res.append(('%s::%s pure x%d' % (cn, op, k), False, str(e))); continue
                pairs = [(f, val[f], sv[f]) for f in val]
            for f, v, s in pairs:
                nm = '%s::%s, only %s present: %s' % (cn, op, GASES[k], f)
                try:
                    v = v if isinstance(v, dict) or v.__class__ is Undecided else sp.of(v)
                    if v.__class__ is Undecided: raise v
                    if s.__class__ is Undecided: raise s
                    ok = eq_any(sp, v, s)
                    res.append((nm, ok, '' if ok else 'differs from the specification'))
                except Undecided as e: res.append((nm, False, str(e)))
        return res
    t = time.time()
    for k, rs in enumerate(pmap(one, list(range(21)))):
        if isinstance(rs, tuple): ck.ob('%s, only %s present' % (cn, GASES[k]), False, 'vcgen', rs); continue
        for nm, ok, d in rs: ck.ob(nm, ok, 'nf', d)
    ck.backend_time['nf'] = ck.backend_time.get('nf', 0) + time.time() - t

def eq_any(sp, v, cands):
    if isinstance(cands, dict): cands = [cands]
    for s in cands:
        if not sp.diffnf(sp.reduce(v), sp.reduce(s)): return True
    for s in cands:
        if sp.same(v, s): return True
    for s in cands:
        if noise(sp, v, s): return True
    return False

POINTS = [dict(T=t, D=d) for t, d in ((60.0, 30.0), (300.0, 1.0), (2000.0, 1e-3), (300.0, 30.0))]
def noise(sp, v, s):
    """the only difference are coefficients below the rounding noise of the constants that
    cancelled (every residual monomial, conditions taken as true, at most 1e-12 of the sum of
    magnitudes at spread-out points)"""
    d = sp.diffnf(sp.reduce(v), sp.reduce(s))
    if len(d) > 200: return False
    for p in POINTS:
        env = dict(p)
        for i in range(21): env['x%d' % i] = (1.0 / 21 if sp.pure is None else float(i == sp.pure))
        memo = {}
        for a in sp.is_ind: memo[a] = 1.0
        m1 = []; m2 = []
        sp.eval(v, env, memo, m1); sp.eval(d, env, memo, m2)
        if not (m1[0] == m1[0] and m2[0] <= 1e-12 * m1[0] and m1[0] < 1e290): return False
    return True

def property_values(sp, which, o, xs=None):
    """(code values, acceptable specifications) per delivered property; for the derived ones the
    specification is stated over the already specified primary ones (theirs or the code's own)"""
    sv, R = spec(sp, which, xs) if xs else spec(sp, which)
    c = Calc(sp)
    def code(f):
        try: return sp.of(o.get(f))
        except Undecided as e: return e
    val = {}
    names = [f for f in PRIMARY if not (which == 'detail' and f == 'd2p_dtd')]
    prim = {f: code(f) for f in ('z', 'mm', 'dp_dd', 'dp_dt', 'cv')}
    want = {f: [sv[f]] for f in names}
    cand = [derived(c, R, sv['cv'], sv['dp_dd'], sv['dp_dt'], sv['z'], sv['mm'])]
    try:
        if all(v.__class__ is dict for v in prim.values()):
            cand.insert(0, derived(c, R, prim['cv'], prim['dp_dd'], prim['dp_dt'], prim['z'], prim['mm']))
    except Undecided: pass
    sp.cases = [d['w2'] for d in cand]
    for f in names: val[f] = code(f)
    val['cp'] = code('cp'); want['cp'] = [d['cp'] for d in cand]
    val['jt'] = code('jt'); want['jt'] = [d['jt'] for d in cand]
    for d in cand: sp.facts.append((d['w2'], 0))
    val['w'] = code('w'); val['kappa'] = code('kappa')
    def half(x):
        try: return sp.power(x, 0.5)
        except Undecided as e: return e
    want['w'] = [half(d['w2']) for d in cand]; want['w'] = [x for x in want['w'] if x.__class__ is dict]
    want['kappa'] = [d['kappa'] for d in cand]
    return val, want

def property_obs(ck, which):
    cn = TITLE[which]
    ck.contracts += [cn + '::properties', cn + '::pressure', cn + '::molar_mass']
    tag = cn + '::properties, D > 1e-15'
    def go():
        t = time.time()
        o, r = execute(ck, which, 'properties')
        ck.noreports(o.E, tag + ': no panic or invalid access')
        ck.hints += list(o.outputs().values())
        sp = RealSpace(which, 'pos')
        try: val, want = property_values(sp, which, o)
        except Undecided as e: ck.ob(tag, False, 'nf', e); return
        ck.reach.append('%s: vcgen %d nodes' % (tag, sp.nodes_done))
        for f in val:
            t = time.time()
            if val[f].__class__ is Undecided: ck.ob('%s: %s' % (tag, f), False, 'nf', val[f]); continue
            ok = eq_any(sp, val[f], want[f])
            det = ''
            if not ok:
                d = sp.diffnf(sp.reduce(val[f]), sp.reduce(want[f][-1]))
                det = sp.str(d)[:600] + ' | undecided: ' + '; '.join(dag.bstr(b, 3)[:120] for b in list(sp.undecided.values())[:6])
            ck.ob('%s: %s' % (tag, f), ok, 'nf', det, time.time() - t)
        pf = o.get('p') if which == 'detail' else r
        sv, R = spec(sp, which)
        ok = eq_any(sp, sp.of(pf), sv['P']); ck.ob(tag + ': P', ok, 'nf')
        # the other case of the only split: W^2 < 0
        sp2 = RealSpace(which, 'pos')
        low_w(ck, sp2, which, o, tag)
    ck.attempt(tag, go)
    pure_patterns(ck, which, ['properties'])

def low_w(ck, sp, which, o, tag):
    """case W^2 < 0: w is reported as 0"""
    c = Calc(sp)
    sv, R = spec(sp, which)
    try:
        prim = {f: sp.of(o.get(f)) for f in ('z', 'mm', 'dp_dd', 'dp_dt', 'cv')}
        for d in (derived(c, R, prim['cv'], prim['dp_dd'], prim['dp_dt'], prim['z'], prim['mm']), derived(c, R, sv['cv'], sv['dp_dd'], sv['dp_dt'], sv['z'], sv['mm'])):
            sp.facts.append((d['w2'], 1))
        w = sp.of(o.get('w'))
        ck.ob(tag + ': w = 0 where its square is negative', not w, 'nf', sp.str(w)[:300])
    except Undecided as e: ck.ob(tag + ': w = 0 where its square is negative', False, 'nf', e)

def mass_obs(ck):
    for which in ('detail', 'gerg'):
        cn = TITLE[which]; ck.contracts += [cn + '::molar_mass', cn + '::properties']
        def go(xs, tag, pure=None, op='molar_mass', D=None):
            t = time.time()
            o, r = execute(ck, which, op, xs=xs, D=D)
            ck.noreports(o.E, tag + ': no panic or invalid access')
            sp = RealSpace(which, 'any', pure=pure)
            M = model(which)
            want = sp.of(M.molar_mass() if pure is None else var('x%d' % pure) * M.M[pure])
            for nm, v in [('field mm', o.get('mm'))] + ([('result', r)] if op == 'molar_mass' else []):
                ck.hints.append(v)
                try:
                    d = sp.equal(sp.of(v), want); ck.ob('%s: %s' % (tag, nm), d is None, 'nf', sp.str(d)[:500] if d else '', time.time() - t)
                except Undecided as e: ck.ob('%s: %s' % (tag, nm), False, 'nf', e)
        for op in ('molar_mass', 'properties'):
            ck.attempt('%s::%s' % (cn, op), go, None, '%s::%s, any composition' % (cn, op), None, op)
        ck.attempt('%s::properties D=0' % cn, go, None, '%s::properties, D = 0' % cn, None, 'properties', 0.0)
        for k in range(21):
            xs = [0.0] * 21; xs[k] = var('x%d' % k)
            ck.attempt('%s::molar_mass' % cn, go, xs, '%s::molar_mass, only %s' % (cn, GASES[k]), k)

def mass_history(ck, which):
    """the same after every history: molar_mass() and properties() on an object whose every cell
    is arbitrary deliver what a new object delivers.  Where they do not term for term (a cache),
    the reachable cache states are explored as for C12/C13."""
    cn = TITLE[which]; direct = True; t = time.time()
    for op in ('molar_mass', 'properties'):
        new, r0 = execute(ck, which, op)
        o = havoc(ck.ctx.fresh(which)); o.set_state(x=symbols(), t=var('T'), d=var('D'), p=var('P'))
        r = o.call(op); ck.ran(o.E)
        if op == 'molar_mass': ck.ran(o.E)
        got = [o.get('mm')] + ([r] if op == 'molar_mass' else []); want = [new.get('mm')] + ([r0] if op == 'molar_mass' else [])
        if not (all(dag.same(a, b) for a, b in zip(got, want))): direct = False; ck.hints += got
        else: ck.ob('%s::%s on an object with arbitrary contents: molar mass as on a new object' % (cn, op), True, 'structural', '', time.time() - t)
        t = time.time()
    if direct: return
    from . import history
    sub = Sub(ck); sub.notes = []; sub.suspects = []; sub.contracts = []
    cc = history.Caches(sub, which); history.explore(sub, cc, ['mm', 'result'])
    for n, ok, b, d, tm in sub.obs: ck.ob(n, ok, b, d, tm)
    ck.reach += sub.reach

def find_mass(ck, nat):
    r = find_fields([(w, op, ['mm']) for w in ('detail', 'gerg') for op in ('molar_mass', 'properties')])(ck, nat)
    if r: return r
    from .history import find_mass_history
    for which in ('detail', 'gerg'):
        r = find_mass_history(ck, nat, which)
        if r: return r

def identity_obs(ck, which):
    cn = TITLE[which]; ck.contracts += [cn + '::properties', cn + '::pressure']
    tag = cn + ' identities, D > 1e-15'
    def go():
        o, r = execute(ck, which, 'properties')
        ck.noreports(o.E, tag + ': no panic or invalid access')
        ck.hints += list(o.outputs().values())
        sp = RealSpace(which, 'pos'); c = Calc(sp); R = model(which).R
        v = {}
        def get(f, term=None):
            if f not in v: v[f] = sp.of(o.get(f) if term is None else term)
            return v[f]
        def chk(name, f):
            t = time.time()
            try:
                a, b = f()
                ok = eq_any(sp, a, b)
                ck.ob('%s: %s' % (tag, name), ok, 'nf', '' if ok else sp.str(sp.diffnf(sp.reduce(a), sp.reduce(b)))[:500], time.time() - t)
            except Undecided as e: ck.ob('%s: %s' % (tag, name), False, 'nf', e, time.time() - t)
        P = lambda: get('P', o.get('p') if which == 'detail' else r)
        o2, r2 = execute(ck, which, 'pressure')
        PV = lambda: c.mul(P(), c.inv(c.D))
        chk('P of properties = P of pressure()', lambda: (P(), get('P2', r2)))
        chk('P = z D R T', lambda: (P(), c.mul(get('z'), c.D, c.T, {(): R})))
        chk('dp_dd = dP/dD', lambda: (get('dp_dd'), c.dD(P())))
        chk('d2p_dd2 = d2P/dD2', lambda: (get('d2p_dd2'), c.dD(get('dp_dd'))))
        chk('dp_dt = dP/dT', lambda: (get('dp_dt'), c.dT(P())))
        chk('h = u + P/D', lambda: (get('h'), c.add(get('u'), PV())))
        chk('g = h - T s', lambda: (get('g'), c.add(get('h'), c.mul(c.T, get('s')), -1.0)))
        chk('cv = du/dT', lambda: (get('cv'), c.dT(get('u'))))
        chk('cv = T ds/dT', lambda: (get('cv'), c.mul(c.T, c.dT(get('s')))))
        chk('du/dD = (P - T dP/dT)/D^2', lambda: (c.dD(get('u')), c.mul(c.add(P(), c.mul(c.T, get('dp_dt')), -1.0), c.inv(c.mul(c.D, c.D)))))
        # the ideal mixing term counts the fractions as given, so the relation is exact up to (sum x - 1) R/D
        xs1 = c.mul(c.add({((a, 1),): R for a in sp.vx}, {(): -R}), c.inv(c.D))
        chk('ds/dD = -(dP/dT)/D^2 - (sum x - 1) R/D', lambda: (c.dD(get('s')), c.add(c.scale(c.mul(get('dp_dt'), c.inv(c.mul(c.D, c.D))), -1.0), xs1, -1.0)))
        chk('cp - cv', lambda: (c.add(get('cp'), get('cv'), -1.0), c.mul(c.T, get('dp_dt'), get('dp_dt'), c.inv(c.mul(c.D, c.D)), c.inv(get('dp_dd')))))
        def w():
            w2 = c.scale(c.mul(get('cp'), c.inv(get('cv')), get('dp_dd'), c.inv(get('mm'))), 1000.0)
            cand = derived(c, R, get('cv'), get('dp_dd'), get('dp_dt'), get('z'), get('mm'))['w2']
            sp.facts += [(w2, 0), (cand, 0)]
            return get('w'), sp.power(w2, 0.5)
        chk('w^2 = 1000 cp/cv dP/dD / M', w)
        chk('kappa = w^2 M/(1000 R T z)', lambda: (get('kappa'), c.mul(sp.power(get('w'), 2), get('mm'), c.inv(c.scale(c.mul(c.T, get('z')), 1000.0 * R)))))
        chk('jt = (T/D (dP/dT)/(dP/dD) - 1)/(cp D)', lambda: (get('jt'), c.mul(c.add(c.mul(c.T, c.inv(c.D), get('dp_dt'), c.inv(get('dp_dd'))), {(): -1.0}), c.inv(get('cp')), c.inv(c.D))))
    ck.attempt(tag, go)

# ---------------------------------------------------------------- counterexamples
def compare_states(ck, nat, which, fields, op, n=1200):
    """run the real code on many states and compare with the specification"""
    S = Sampler(ck.seed, n, xlo=0.0 if which == 'detail' else 1e-15)
    cs = conditions(ck.hints)
    S.constants(cs)
    S.drive(cs)
    keep = np.ones(S.n, bool)
    env = S.env
    names = [f for f in fields if f != 'P']
    val, mag = thermo.numeric(which, env, S.n, set(names) | ({'P'} if 'P' in fields else set()))
    scripts = []
    for k in range(S.n):
        st = [['new', 'a'], ['set', 'a', dict(x=S.x(k), t=float(env['T'][k]), d=float(env['D'][k]), p=1.0)], ['call', 'a', op], ['get', 'a', OUT + ['p']]]
        scripts.append(dict(which=which, steps=st))
    res = nat.run(scripts, until=time.time() + 120)
    worst = None
    for k, r in enumerate(res):
        if isinstance(r, dict): return dict(what='%s::%s: %s' % (TITLE[which], op, r['crash']), script=scripts[k], which=which)
        got = dict(zip(OUT + ['p'], r[1]))
        got['P'] = got['p'] if (which == 'detail' and op == 'properties') else r[0]
        if not 1e-3 <= float(env['T'][k]) <= 1e8: continue       # outside, rounding and overflow dominate
        for f in fields:
            if f not in ('P', 'z') and not float(env['D'][k]) > 1e-15 and f != 'mm': continue      # C18
            e, m = float(val[f][k]), float(mag[f][k])
            g = got[f]
            if not (math.isfinite(e) and math.isfinite(m)) : continue
            if m > 1e6 * abs(e) and e != 0 and f in DERIVED: continue
            err = abs(g - e) / (m + 1e-300) if math.isfinite(g) else math.inf
            if err > 1e-7 and (worst is None or err > worst[0]): worst = (err, k, f, g, e)
    if worst:
        err, k, f, g, e = worst
        return dict(what='%s::%s at T=%r K, D=%r mol/l, x=%s: %s is %r, the specification gives %r' % (TITLE[which], op, float(env['T'][k]), float(env['D'][k]),
                    {GASES[i]: x for i, x in enumerate(S.x(k)) if x}, f, g, e), script=scripts[k], field=f, expected=e, got=g, which=which)
    return None

def find_fields(fieldsop):
    def f(ck, nat):
        for which, op, fields in fieldsop:
            r = compare_states(ck, nat, which, fields, op)
            if r: return r
    return f

ALLF = {'detail': [f for f in PRIMARY + DERIVED if f != 'd2p_dtd'] + ['P'], 'gerg': PRIMARY + DERIVED + ['P']}

def run(ck):
    pid = ck.pid
    ck.assumptions += [ARITH_REAL]
    if pid in ('C06', 'C08'):
        w = 'detail' if pid == 'C06' else 'gerg'
        ck.assumptions += [DOMAIN + "D >= 0", "published coefficients are those pinned in contracts/%s_tables.json, taken from the published tables and cross-checked against the program's own preprocessed constants at pinning time" % w,
                           "the contract is over a newly created object with arbitrary public state; independence of earlier calls is property C12/C13"]
        pressure_obs(ck, w)
        return ck.finish(find_fields([(w, 'pressure', ['P', 'z']), (w, 'properties', ['P', 'z'])]))
    if pid in ('C07', 'C09'):
        w = 'detail' if pid == 'C07' else 'gerg'
        ck.assumptions += [DOMAIN + "D > 1e-15", "published coefficients are those pinned in contracts/%s_tables.json" % w,
                           "Cv > 0-type side conditions are not assumed; quotients are compared as formal quotients, so points where dP/dD, Cv, Cp or Z vanish are excluded"]
        property_obs(ck, w)
        return ck.finish(find_fields([(w, 'properties', ALLF[w])]))
    if pid == 'C04':
        ck.assumptions += [DOMAIN + "any density"]
        mass_obs(ck)
        for w in ('detail', 'gerg'): ck.attempt(TITLE[w] + ' molar mass after other calls', mass_history, ck, w)
        return ck.finish(find_mass)
    if pid == 'C16':
        ck.assumptions += [DOMAIN + "D > 1e-15"]
        for w in ('detail', 'gerg'): identity_obs(ck, w)
        return ck.finish(find_identities)

def find_identities(ck, nat):
    """identities by finite differences on the real code"""
    for which in ('detail', 'gerg'):
        S = Sampler(ck.seed, 500, xlo=0.0 if which == 'detail' else 1e-15, drange=(1e-4, 20.0), trange=(150.0, 900.0))
        cs = conditions(ck.hints); S.constants(cs); S.drive(cs)
        env = S.env; R = model(which).R
        scripts = []; F = OUT + ['p']
        eT, eD = 1e-4, 1e-4
        idx = list(range(S.n))
        for k in idx:
            st = []
            T, D = float(env['T'][k]), float(env['D'][k])
            for n, (dt, dd) in enumerate(((0, 0), (eT, 0), (-eT, 0), (0, eD), (0, -eD))):
                nm = 'a%d' % n
                st += [['new', nm], ['set', nm, dict(x=S.x(k), t=T * (1 + dt), d=D * (1 + dd), p=1.0)], ['call', nm, 'properties'], ['get', nm, F]]
            scripts.append(dict(which=which, steps=st))
        res = nat.run(scripts, until=time.time() + 150)
        for k, rr in enumerate(res):
            if isinstance(rr, dict): return dict(what='properties: %s' % rr['crash'], script=scripts[k], which=which)
            v = [dict(zip(F, rr[2 * n + 1])) for n in range(5)]
            for n in range(5): v[n]['P'] = v[n]['p'] if which == 'detail' else rr[2 * n]
            a = v[0]; T, D = float(env['T'][k]), float(env['D'][k])
            if not (D > 1.001e-15 and 1e-3 <= T <= 1e8): continue
            if not all(math.isfinite(q) for vv in v for q in vv.values()): continue
            dT = lambda f: (v[1][f] - v[2][f]) / (2 * eT * T); dD = lambda f: (v[3][f] - v[4][f]) / (2 * eD * D)
            ids = [('P = z D R T', a['P'], a['z'] * D * R * T, abs(a['P']) + D * R * T, 1e-9), ('h = u + P/D', a['h'], a['u'] + a['P'] / D, abs(a['h']) + abs(a['u']) + abs(a['P'] / D), 1e-9),
                   ('g = h - T s', a['g'], a['h'] - T * a['s'], abs(a['h']) + abs(T * a['s']), 1e-9),
                   ('cp - cv', a['cp'] - a['cv'], T * a['dp_dt'] ** 2 / D ** 2 / a['dp_dd'] if a['dp_dd'] else math.nan, abs(a['cp']) + abs(a['cv']), 1e-7),
                   ('w', a['w'], math.sqrt(max(0, 1000 * a['cp'] / a['cv'] * a['dp_dd'] / a['mm'])) if a['cv'] * a['mm'] else math.nan, abs(a['w']) + 1, 1e-7),
                   ('dp_dd = dP/dD', a['dp_dd'], dD('P'), abs(a['dp_dd']) + abs(a['P'] / D) + R * T, 1e-4),
                   ('d2p_dd2', a['d2p_dd2'], dD('dp_dd'), abs(a['d2p_dd2']) + abs(a['dp_dd'] / D) , 1e-4),
                   ('dp_dt = dP/dT', a['dp_dt'], dT('P'), abs(a['dp_dt']) + D * R + abs(a['P']) / T, 1e-4), ('cv = du/dT', a['cv'], dT('u'), abs(a['cv']) + abs(a['u']) / T + R, 1e-4),
                   ('cv = T ds/dT', a['cv'], T * dT('s'), abs(a['cv']) + abs(a['s']) + R, 1e-4),
                   ('kappa', a['kappa'], a['w'] ** 2 * a['mm'] / (1000 * R * T * a['z']) if a['z'] else math.nan, abs(a['kappa']) + 1, 1e-7),
                   ('jt', a['jt'], (T / D * a['dp_dt'] / a['dp_dd'] - 1) / a['cp'] / D if a['dp_dd'] * a['cp'] else math.nan, abs(a['jt']) + 1.0 / abs(a['cp'] * D) if a['cp'] else math.nan, 1e-7)]
            for nm, g, e, m, tol in ids:
                if math.isfinite(g) and math.isfinite(e) and math.isfinite(m) and abs(g - e) > tol * m:
                    # finite differences: confirm with a smaller step ratio by requiring a clear margin
                    if tol > 1e-5 and abs(g - e) < 30 * tol * m: continue
                    return dict(what='%s at T=%r, D=%r, x=%s: identity %s: %r against %r' % (TITLE[which], T, D, {GASES[i]: x for i, x in enumerate(S.x(k)) if x}, nm, g, e), script=scripts[k], which=which)
    return None
