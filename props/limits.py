"""C18: ideal-gas limit (density zero and up to the cut-off) and the speed-of-sound clamp."""
from .helmholtz import *

def nonneg_or_nan(n, memo=None):
    """structurally never negative (machine arithmetic): square roots, magnitudes, constants,
    and selections among such"""
    if n.__class__ is float: return not n < 0
    if n.op in ('sqrt', 'abs', 'exp'): return True
    if n.op == 'ite':
        c, a, b = n.args
        def arm(t, x, truth):
            if nonneg_or_nan(x): return True
            # guarded directly: selected only when not negative
            for l in (c.args if c.op == 'and' else [c]):
                if truth:
                    if l.op in ('olt', 'ole') and l.args[0].__class__ is float and l.args[0] >= 0 and l.args[1] is x: return True
                    if l.op == 'not' and l.args[0].op == 'olt' and l.args[0].args[0] is x and l.args[0].args[1] == 0.0: return True
                elif l.op == 'olt' and c is l and l.args[0] is x and l.args[1] == 0.0: return True
                elif l.op == 'ole' and c is l and l.args[0] is x and l.args[1] == 0.0: return True
            return False
        return arm(c, a, True) and arm(c, b, False)
    if n.op == 'mul': return n.args[0] is n.args[1] or (nonneg_or_nan(n.args[0]) and nonneg_or_nan(n.args[1]))
    if n.op in ('add', 'div'): return nonneg_or_nan(n.args[0]) and nonneg_or_nan(n.args[1])
    if n.op == 'pow' or n.op == 'powi': return nonneg_or_nan(n.args[0])
    return False

def case(ck, which, D, dcase, label, xs=None, pure=None):
    cn = TITLE[which]; tag = '%s::properties, %s' % (cn, label)
    res = []
    def ob(n, ok, d=''): res.append((tag + ': ' + n, bool(ok), str(d)[:500]))
    o, r = execute(ck, which, 'properties', xs=xs, D=D)
    if pure is None: ck.hints += list(o.outputs().values())
    bad = [m for m, pc, st in o.E.reports]; ob('no panic or invalid access', not bad, bad[:3])
    sp = RealSpace(which, dcase, pure=pure); R = model(which).R; c = Calc(sp)
    RT = sp.scale(c.T, R)
    get = lambda f: sp.of(o.get(f))
    def chk(n, f):
        try:
            a, b = f(); cs = b if isinstance(b, list) else [b]
            ok = any(eq_any(sp, a, x) for x in cs)
            ob(n, ok, '' if ok else sp.str(sp.diffnf(sp.reduce(a), sp.reduce(cs[0]))))
        except Undecided as e: ob(n, False, e)
    zs = {(): 1.0}
    if D != 0.0: zs = pressure_spec(sp, which, xs or thermo.X)[0]['z']
    chk('z %s' % ('= 1' if D == 0.0 else 'equals the published equation, whose limit is 1'), lambda: (get('z'), zs))
    chk('cp - cv = R', lambda: (sp.add(get('cp'), get('cv'), -1.0), {(): R}))
    chk('d2p_dd2 = 0', lambda: (get('d2p_dd2'), {}))
    chk('jt = 1e20', lambda: (get('jt'), {(): 1e20}))
    # RT times (a factor that tends to 1): exactly RT at D = 0
    rt = [RT] + ([c.mul(RT, get('z'))] if D != 0.0 else [])
    chk('h - u = R T', lambda: (sp.add(get('h'), get('u'), -1.0), rt))
    chk('g - (u - T s) = R T', lambda: (sp.add(sp.add(get('g'), get('u'), -1.0), c.mul(c.T, get('s'))), rt))
    try:
        w2 = c.scale(c.mul(get('cp'), c.inv(get('cv')), get('dp_dd'), c.inv(get('mm'))), 1000.0)
        alt = c.scale(c.mul(sp.add(get('cv'), {(): R}), c.inv(get('cv')), get('dp_dd'), c.inv(get('mm'))), 1000.0)
        sp.facts += [(w2, 0), (alt, 0)]
        chk('w^2 = 1000 cp/cv dP/dD / M', lambda: (get('w'), [sp.power(w2, 0.5), sp.power(alt, 0.5)]))
        sp = RealSpace(which, dcase, pure=pure)
        c = Calc(sp)
        w2 = c.scale(c.mul(sp.of(o.get('cp')), c.inv(sp.of(o.get('cv'))), sp.of(o.get('dp_dd')), c.inv(sp.of(o.get('mm')))), 1000.0)
        alt = c.scale(c.mul(sp.add(sp.of(o.get('cv')), {(): R}), c.inv(sp.of(o.get('cv'))), sp.of(o.get('dp_dd')), c.inv(sp.of(o.get('mm')))), 1000.0)
        sp.facts += [(w2, 1), (alt, 1)]
        wz = sp.of(o.get('w')); ob('w = 0 where its square is negative', not wz, sp.str(wz))
    except Undecided as e: ob('w', False, e)
    return res

def run(ck):
    ck.assumptions += [ARITH_REAL + " (the clamp obligation is over machine arithmetic)", DOMAIN + "0 <= D <= 1e-15, D = 0 and, for the clamp, any D",
                       "between 0 and the cut-off the limit values hold up to the factor Z, which differs from 1 by less than rounding there"]
    for which in ('detail', 'gerg'):
        cn = TITLE[which]; ck.contracts += [cn + '::properties']
        for D, dc, label in ((0.0, 'any', 'D = 0'), (None, 'low', '0 <= D <= 1e-15')):
            t = time.time()
            r = ck.attempt('%s::properties, %s' % (cn, label), case, ck, which, D, dc, label)
            for n, ok, d in r or []: ck.ob(n, ok, 'nf', d, (time.time() - t) / max(1, len(r)))
        def one(k):
            xs = [0.0] * 21; xs[k] = var('x%d' % k)
            return case(ck, which, 0.0, 'any', 'D = 0, only %s' % GASES[k], xs, k) + case(ck, which, None, 'low', '0 <= D <= 1e-15, only %s' % GASES[k], xs, k)
        t = time.time()
        for k, rs in enumerate(pmap(one, list(range(21)))):
            if isinstance(rs, tuple): ck.ob('%s::properties, low density, only %s: verification conditions generated' % (cn, GASES[k]), False, 'vcgen', rs); continue
            for n, ok, d in rs: ck.ob(n, ok, 'nf', d)
        ck.backend_time['nf'] += time.time() - t
        # the clamp, over machine arithmetic and every state (no precondition at all)
        def clamp():
            t = time.time()
            o, r = execute(ck, which, 'properties')
            w = o.get('w'); ck.hints.append(w)
            ck.ob('%s::properties, any state: w is never negative' % cn, nonneg_or_nan(w), 'structural', dag.fstr(w, 3), time.time() - t)
            sp = RealSpace(which, 'pos'); low_w(ck, sp, which, o, cn + '::properties, D > 1e-15')
        ck.attempt(cn + '::properties clamp', clamp)
    return ck.finish(find)

def find(ck, nat):
    for which in ('detail', 'gerg'):
        S = Sampler(ck.seed, 500, xlo=0.0 if which == 'detail' else 1e-15, drange=(1e-30, 1e-15), trange=(200.0, 1500.0))
        cs = conditions(ck.hints); S.constants(cs); S.drive(cs, budget=30)
        env = S.env; R = model(which).R
        env['D'] = np.where(np.arange(S.n) % 3 == 0, 0.0, np.minimum(env['D'], 1e-15))
        hot = Sampler(ck.seed + 1, 400, xlo=1e-15, drange=(0.1, 25.0), trange=(90.0, 400.0))
        scripts = []; F = OUT + ['p', 't', 'd']
        for e, n in ((S, S.n), (hot, hot.n)):
            for k in range(n):
                scripts.append(dict(which=which, steps=[['new', 'a'], ['set', 'a', dict(x=e.x(k), t=float(e.env['T'][k]), d=float(e.env['D'][k]), p=1.0)], ['call', 'a', 'properties'], ['get', 'a', F]]))
        res = nat.run(scripts, until=time.time() + 120)
        for k, r in enumerate(res):
            if isinstance(r, dict): return dict(what='properties: %s' % r['crash'], script=scripts[k], which=which)
            a = dict(zip(F, r[1])); T, D = a['t'], a['d']
            ids = [('w is not negative', 1.0 if a['w'] < 0 else 0.0, 0.0, 1.0, 0.5)]
            w2 = 1000 * a['cp'] / a['cv'] * a['dp_dd'] / a['mm'] if a['cv'] * a['mm'] else math.nan
            if w2 < 0: ids.append(('w = 0 where its square is negative', a['w'], 0.0, 1.0, 1e-12))
            elif math.isfinite(w2): ids.append(('w', a['w'], math.sqrt(w2), a['w'] if math.isfinite(a['w']) else 1.0, 1e-9))
            if not 1e-3 <= T <= 1e8: ids = ids[:1]
            elif D <= 1e-15:
                ids += [('z = 1', a['z'], 1.0, 1.0, 1e-6), ('cp - cv = R', a['cp'] - a['cv'], R, abs(a['cp']) + R, 1e-12), ('d2p_dd2 = 0', a['d2p_dd2'], 0.0, 1.0, 0.0),
                        ('jt = 1e20', a['jt'], 1e20, 1e20, 1e-12), ('h - u = RT', a['h'] - a['u'], R * T, abs(a['h']) + abs(a['u']) + R * T, 1e-6),
                        ('g - a = RT', a['g'] - (a['u'] - T * a['s']), R * T, abs(a['g']) + abs(a['u']) + abs(T * a['s']), 1e-6)]
            for n, g, e, m, tol in ids:
                if not math.isfinite(g) and D == 0.0 and n in ('g - a = RT',): continue     # entropy diverges at D = 0
                if not (abs(g - e) <= tol * m) and math.isfinite(m):
                    return dict(what='%s::properties at T=%r, D=%r: %s: %r against %r' % (TITLE[which], T, D, n, g, e), script=scripts[k], which=which)
    return None
