"""C14: each C function is the Rust method of the same name on the object behind the handle.
C15: creation, release and null handling of handles are memory-safe."""
import time, math
import numpy as np
from engine.check import *
from engine.dag import FNode, BNode, SymInt, bvar, symint, ipairs
from engine.symex import UNDEF, OBJ
from engine import fpz3
from .dens import *
from .composition import Comp
PRE = {'detail': 'aga8_', 'gerg': 'gerg_'}
FIELD = {'pressure': 'p', 'temperature': 't', 'density': 'd'}
PROPS = ['d', 'mm', 'z', 'dp_dd', 'd2p_dd2', 'dp_dt', 'u', 'h', 's', 'cv', 'cp', 'w', 'g', 'jt', 'kappa']
ALL = ['new', 'free', 'set_composition'] + [a + f for a in ('set_', 'get_') for f in FIELD] + ['get_properties'] + ['calculate_' + q for q in ('pressure', 'molar_mass', 'density', 'properties')]

def cfun(o, name, *args):
    """call an exported C function"""
    r, o.S = o.E.call2(o.ctx.aga, PRE[o.which] + name, list(args), o.S)
    return r
def err_cell(o, enum):
    """the caller's error variable, holding any of the enumeration's values"""
    n = o.ctx.lay[enum + '.size']; a = o.E.new_obj(n, 'ext', 'err')
    vs = sorted({o.ctx.lay['%s.%s' % (enum, k)] for k in (('Ok', 'Empty', 'BadSum') if enum[0] == 'C' else ('Ok', 'IterationFail', 'PressureTooLow'))})
    rest = 1; ps = []
    for v in vs[:-1]:
        b = bvar('err_was_%d' % v); ps.append((v, band(rest, b))); rest = band(rest, bnot(b))
    ps.append((vs[-1], rest)); o.S.store(a, n, symint(ps))
    return a, n
def code_to_c(o, r, enum):
    """result of the Rust method (coded by the probe) as the C enumeration"""
    L = o.ctx.lay; names = ['Ok', 'Empty', 'BadSum', 'Ok'] if enum[0] == 'C' else ['Ok', 'IterationFail', 'PressureTooLow', 'Ok']
    return symint([(L['%s.%s' % (enum, names[v])], c) for v, c in ipairs(r)])

def watch(o):
    """remember what kinds of memory are written"""
    seen = set(); old = o.E.on_write
    def w(S, a, n):
        ob = o.E.objs.get(a >> OBJ) if a.__class__ is int else None
        if ob is not None and ob.kind not in ('stack',): seen.add((ob.kind, ob.name))
    o.E.on_write = w
    return seen

def arbitrary(ck, which): return havoc(ck.ctx.fresh(which))

def same_cells(ck, name, a, b, o, t, hint=True):
    bad = [k for k in set(a) | set(b) if k not in a or k not in b or not dag.same(a[k][1], b[k][1])]
    pub = {v: k for k, v in o.off.items()}
    return ck.ob(name, not bad, 'structural', 'differs in %s' % ', '.join(str(pub.get(k, 'private cell %d' % k)) for k in sorted(bad)[:6]), t)

def c14(ck, which):
    ctx = ck.ctx; pre = PRE[which]; L = ctx.lay
    ops = [None]
    def group(name, fn):
        ck.contracts.append(pre + name); ck.attempt(pre + name, fn)
    def setter(f):
        def go():
            t = time.time(); o = arbitrary(ck, which); b = o.snapshot(); cfun(o, 'set_' + f, o.base, var('value')); ck.ran(o.E)
            want = dict(b); want[o.off[FIELD[f]]] = (8, var('value'))
            same_cells(ck, pre + 'set_%s stores the %s and nothing else' % (f, f), o.snapshot(), want, o, time.time() - t)
        return go
    def getter(f):
        def go():
            t = time.time(); o = arbitrary(ck, which); b = o.snapshot(); r = cfun(o, 'get_' + f, o.base); ck.ran(o.E)
            ck.ob(pre + 'get_%s returns the %s' % (f, f), dag.same(r, b[o.off[FIELD[f]]][1]), 'structural', dag.fstr(r, 3), time.time() - t)
            same_cells(ck, pre + 'get_%s changes nothing' % f, o.snapshot(), b, o, 0)
        return go
    for f in FIELD: group('set_' + f, setter(f)); group('get_' + f, getter(f))
    def record():
        t = time.time(); o = arbitrary(ck, which); b = o.snapshot(); out = o.E.new_obj(L['props.size'], 'ext', 'record')
        cfun(o, 'get_properties', out, o.base); ck.ran(o.E)
        for f in PROPS:
            v = o.S.load(out + L['props.' + f], 8, True)
            ck.ob(pre + 'get_properties: %s of the record is the current %s' % (f, f), dag.same(v, b[o.off[f]][1]), 'structural', dag.fstr(v, 3) if v.__class__ is FNode else repr(v), (time.time() - t) / 15)
        same_cells(ck, pre + 'get_properties changes nothing', o.snapshot(), b, o, 0)
    group('get_properties', record)
    def comp():
        t = time.time(); o = arbitrary(ck, which); c = Comp(ctx, E=o.E, S=o.S); o.S = c.S; e, n = err_cell(o, 'CompositionError')
        cfun(o, 'set_composition', o.base, c.base, e); ck.ran(o.E); c.S = o.S
        got = o.S.load(e, n, False)
        o2 = arbitrary(ck, which); c2 = Comp(ctx, E=o2.E, S=o2.S); o2.S = c2.S
        want = code_to_c(o2, o2.call('set_composition', c2.base), 'CompositionError')
        ck.ob(pre + 'set_composition: error code equals the Rust outcome', fpz3.int_same(got, want), 'z3-prop', '%s against %s' % (got, want), time.time() - t)
        same_cells(ck, pre + 'set_composition: effect equals that of the Rust method', o.snapshot(), o2.snapshot(), o, 0)
        ck.ob(pre + 'set_composition: the composition given is not changed', all(dag.same(x, var('c%d' % i)) for i, x in enumerate(c.get())), 'structural')
    group('set_composition', comp)
    for q in ('pressure', 'molar_mass', 'properties'):
        def calc(q=q):
            t = time.time(); o = arbitrary(ck, which); r = cfun(o, 'calculate_' + q, o.base); ck.ran(o.E)
            o2 = arbitrary(ck, which); r2 = o2.call(q)
            if q == 'molar_mass': r2 = o2.get('mm')
            if q != 'properties': ck.ob(pre + 'calculate_%s: result equals that of the Rust method' % q, dag.same(r, r2), 'structural', dag.fstr(r, 3), time.time() - t)
            same_cells(ck, pre + 'calculate_%s: effect equals that of the Rust method' % q, o.snapshot(), o2.snapshot(), o, time.time() - t)
        group('calculate_' + q, calc)
    def dens():
        t = time.time(); ops = Ops(ck, which)
        res = []
        for side in ('c', 'rust'):
            o = arbitrary(ck, which); counts = {}; ops.hook(o, counts)
            if side == 'c':
                e, n = err_cell(o, 'DensityError'); cfun(o, 'calculate_density', o.base, e); code = o.S.load(e, n, False); ck.ran(o.E)
            else: code = code_to_c(o, o.call('density', *([0] if which == 'gerg' else [])), 'DensityError')
            res.append((o, code))
        (o, got), (o2, want) = res
        ck.ob(pre + 'calculate_density: error code equals the Rust outcome%s' % (' for phase flag 0' if which == 'gerg' else ''), fpz3.int_same(got, want), 'z3-prop', '%s against %s' % (str(got)[:200], str(want)[:200]), time.time() - t)
        same_cells(ck, pre + 'calculate_density: effect equals that of the Rust method', o.snapshot(), o2.snapshot(), o, 0)
    group('calculate_density', dens)

def argvalues(o, name):
    """arguments after the handle, or None where the function does not exist"""
    if name == 'set_composition':
        c = Comp(o.ctx, E=o.E, S=o.S); o.S = c.S; e, n = err_cell(o, 'CompositionError'); return [c.base, e], [(c.base, o.ctx.lay['comp.size']), (e, n)]
    if name == 'calculate_density': e, n = err_cell(o, 'DensityError'); return [e], [(e, n)]
    if name.startswith('set_'): return [var('value')], []
    return [], []

def is_panic(m): return m.startswith('panic')

def c15(ck, which):
    ctx = ck.ctx; pre = PRE[which]; L = ctx.lay; size = L[which + '.size']
    # creation
    def create():
        t = time.time(); o = Obj(ctx, which); seen = watch(o)
        a = cfun(o, 'new'); b = cfun(o, 'new'); ck.ran(o.E)
        ck.noreports(o.E, pre + 'new: no panic or invalid access')
        good = a.__class__ is int and b.__class__ is int and all(o.E.objs.get(q >> OBJ) is not None and o.E.objs[q >> OBJ].kind == 'heap' and q & ((1 << OBJ) - 1) == 0 for q in (a, b))
        ck.ob(pre + 'new: returns the start of a heap block', good, 'structural', '%r %r' % (a, b), time.time() - t)
        if not good: return
        ck.ob(pre + 'new: every call returns another block', a != b, 'structural')
        ck.ob(pre + 'new: the block is at least as large as the object', all(o.E.objs[q >> OBJ].size >= size for q in (a, b)), 'structural', o.E.objs[a >> OBJ].size)
        want = ctx.fresh(which).snapshot()
        for q, nm in ((a, 'first'), (b, 'second')):
            keep, o.base = o.base, q; got = o.snapshot(); o.base = keep
            same_cells(ck, pre + 'new: the %s block holds a newly created calculator' % nm, got, want, o, 0)
        ck.ob(pre + 'new: block not released', not any(o.S.raw(('freed', q >> OBJ)) for q in (a, b)), 'structural')
        ck.ob(pre + 'new: writes only to the new blocks', all(k == 'heap' for k, n in seen), 'structural', str(sorted(seen)))
        # release
        heap0 = list(o.E.heap); t = time.time()
        keep, o.base = o.base, b; before = o.snapshot(); o.base = keep
        seen.clear(); cfun(o, 'free', a); ck.ran(o.E)
        ck.noreports(o.E, pre + 'free: no panic, invalid access, double free or mismatched release')
        freed = [q for q in o.E.heap if o.S.raw(('freed', q >> OBJ))]
        extra = [q for q in o.E.heap if q not in heap0]
        ck.ob(pre + 'free: releases exactly the block behind the handle', [q for q in freed if q in heap0] == [a] and set(extra) <= set(freed), 'structural', str([o.E.where(q) for q in freed]), time.time() - t)
        keep, o.base = o.base, b; after = o.snapshot(); o.base = keep
        same_cells(ck, pre + 'free: other calculators are not touched', after, before, o, 0)
    ck.contracts += [pre + 'new', pre + 'free']; ck.attempt(pre + 'new', create)
    def fnull():
        t = time.time(); o = arbitrary(ck, which); b = o.snapshot(); seen = watch(o); cfun(o, 'free', 0)
        ck.noreports(o.E, pre + 'free(null): no panic or invalid access')
        ck.ob(pre + 'free(null): releases and writes nothing', not seen and not o.E.heap, 'structural', str(seen), time.time() - t)
    ck.attempt(pre + 'free(null)', fnull)
    # null handles
    for name in ALL[2:]:
        def null(name=name):
            t = time.time(); o = arbitrary(ck, which); args, mem = argvalues(o, name)
            out = []
            if name == 'get_properties': q = o.E.new_obj(L['props.size'], 'ext', 'record'); out = [q]
            seen = watch(o); n0 = len(o.E.reports); returned = True
            try: cfun(o, name, *out, 0, *args)
            except Dead: returned = False
            msgs = sorted({m for m, pc, st in o.E.reports[n0:]})
            ck.ob(pre + name + '(null): does not return', not returned, 'vcgen', '', time.time() - t)
            ck.ob(pre + name + '(null): stops with an assertion, not an invalid access', bool(msgs) and all(is_panic(m) for m in msgs), 'vcgen', str(msgs))
            ck.ob(pre + name + '(null): writes nothing before it stops', not seen, 'structural', str(seen))
        ck.attempt(pre + name + '(null)', null)
    # valid handles: accesses stay inside the object and the arguments
    ops = Ops(ck, which)
    for name in ALL[2:]:
        def valid(name=name):
            t = time.time(); ck.contracts.append(pre + name)
            o = arbitrary(ck, which); args, mem = argvalues(o, name); out = []
            if name == 'get_properties': q = o.E.new_obj(L['props.size'], 'ext', 'record'); out = [q]
            if name == 'calculate_density': ops.hook(o, {})
            heap0 = list(o.E.heap); seen = watch(o); cfun(o, name, *out, o.base, *args); ck.ran(o.E)
            ck.noreports(o.E, pre + name + ': no panic or access outside the handle and the arguments')
            may = {('ext', o.E.objs[o.base >> OBJ].name)} | ({('ext', 'err')} if name in ('set_composition', 'calculate_density') else set()) | ({('ext', 'record')} if out else set())
            live = [h for h in o.E.heap if h not in heap0 and not o.S.raw(('freed', h >> OBJ))]
            ck.ob(pre + name + ': writes only to the handle and its result', all(w in may or w[0] == 'heap' for w in seen), 'structural', str(sorted(seen - may)), time.time() - t)
            ck.ob(pre + name + ': leaves no allocation behind', not live, 'structural', '%d blocks' % len(live))
        ck.attempt(pre + name, valid)

def run(ck):
    if ck.pid == 'C14': ck.assumptions += [ARITH_EUF, "valid handles: the object's machine-integer cells hold the values the constructor gives them (shown to be kept by C05)", "density is compared with its calls to pressure() and properties() replaced by their contracts on both sides"]
    else: ck.assumptions += ["the global allocator returns fresh, suitably aligned blocks or aborts", "a valid handle is one obtained from the creation function and not yet released", "panics in these functions end the process (extern \"C\" functions do not unwind)"]
    for w in ('detail', 'gerg'): ck.attempt(TITLE[w], c14 if ck.pid == 'C14' else c15, ck, w)
    return ck.finish(find14 if ck.pid == 'C14' else find15)

# ---------------------------------------------------------------- counterexamples
def inputs(rng, S):
    i = int(rng.integers(S.n)); v = dict(x=S.x(i), t=float(S.env['T'][i]), d=float(S.env['D'][i]), p=float(S.env['P'][i]))
    odd = [0.0, -1.0, 1e-16, math.nan, math.inf, 1e9]
    for f in ('t', 'd', 'p'):
        if rng.random() < 0.12: v[f] = float(odd[rng.integers(len(odd))])
    if rng.random() < 0.3: v['d'] = 0.0
    return v

def find14(ck, nat):
    rng = np.random.default_rng(ck.seed)
    from engine.search import Sampler
    S = Sampler(ck.seed, 1500); end = time.time() + 120
    F = STATE + OUT + ['x%d' % i for i in range(21)]; scripts = []
    for k in range(8000):
        which = ('detail', 'gerg')[k % 2]; v = inputs(rng, S); v.update({f: 100.0 + i for i, f in enumerate(OUT)})
        if rng.random() < .5: v.update(z=0.9, mm=18.0, dp_dd=2000.0, cv=30.0, cp=40.0, w=400.0)
        op = ALL[2 + int(rng.integers(len(ALL) - 2))]; arg = []
        if op == 'set_composition':
            x = S.x(int(rng.integers(S.n))); r = rng.random()
            if r < .2: x = [q * 1.5 for q in x]
            elif r < .4: x = [0.0] * 21
            arg = [x]
        elif op.startswith('set_'): arg = [float(rng.uniform(-5, 500))]
        st = [['ffinew', 'a'], ['new', 'b'], ['set', 'a', v], ['set', 'b', v], ['ffi', 'a', op] + arg, ['get', 'a', F]]
        if op == 'set_composition': st.append(['setcomp', 'b', arg[0]])
        elif op.startswith('calculate_'): st.append(['call', 'b', op[10:]] + ([0] if which == 'gerg' and op == 'calculate_density' else []))
        elif op in ('get_pressure', 'get_temperature', 'get_density'): st.append(['get', 'b', [FIELD[op[4:]]]])
        elif op == 'get_properties': st.append(['get', 'b', PROPS])
        else: st += [['set', 'b', {FIELD[op[4:]]: arg[0]}]]
        st.append(['get', 'b', F]); scripts.append((op, dict(which=which, steps=st)))
    eq = lambda a, b: a == b or (a != a and b != b)
    for (op, sc), r in zip(scripts, nat.run([s for o, s in scripts], until=end)):
        nm = PRE[sc['which']] + op
        if isinstance(r, dict): return dict(what='%s: %s' % (nm, r['crash']), script=sc)
        got, ga, gb = r[0], r[1], r[-1]; want = r[2] if len(r) > 3 else None
        for f, a, b in zip(F, ga, gb):
            if not eq(a, b): return dict(what='%s: %s is %r, the Rust method leaves %r' % (nm, f, a, b), script=sc)
        if op == 'get_properties':
            for f, a, b in zip(PROPS, got, want):
                if not eq(a, b): return dict(what='%s: %s is %r, the object holds %r' % (nm, f, a, b), script=sc)
        elif op.startswith('get_') and not eq(got, want[0]): return dict(what='%s returns %r, the object holds %r' % (nm, got, want[0]), script=sc)
        elif op in ('calculate_pressure', 'calculate_molar_mass', 'calculate_density', 'set_composition') and not eq(got, want): return dict(what='%s returns %r, the Rust method %r' % (nm, got, want), script=sc)
    return None

def find15(ck, nat):
    """each function with a null handle in a process of its own; creation and release"""
    for which in ('detail', 'gerg'):
        for op in ALL[2:]:
            arg = [[1.0] + [0.0] * 20] if op == 'set_composition' else [1.0] if op in ('set_pressure', 'set_temperature', 'set_density') else []
            sc = dict(which=which, steps=[['ffinull', op] + arg]); nat.timeout = 10
            r = nat.run([sc])[0]
            if not isinstance(r, dict): return dict(what='%s%s(null) returns' % (PRE[which], op), script=sc)
            if 'status -6' not in r['crash'] and 'status -4' not in r['crash']: return dict(what='%s%s(null): %s instead of an assertion' % (PRE[which], op, r['crash']), script=sc)
        F = STATE + OUT + ['x%d' % i for i in range(21)]
        sc = dict(which=which, steps=[['ffinew', 'a'], ['ffinew', 'b'], ['get', 'a', F], ['get', 'b', F], ['new', 'c'], ['get', 'c', F], ['ffifree', 'a'], ['ffifreenull'], ['get', 'b', F], ['ffifree', 'b']] * 20)
        r = nat.run([sc])[0]
        if isinstance(r, dict): return dict(what='%snew/free: %s' % (PRE[which], r['crash']), script=sc)
        nat.timeout = 60; size = ck.ctx.lay[which + '.size']
        for calls, n in [([], 4000)] + [([[op] + ([[1.0] + [0.0] * 20] if op == 'set_composition' else [1.0] if op.startswith('set_') else [])], 2000) for op in ALL[2:]]:
            sc = dict(which=which, steps=[['churn', n, calls]]); r = nat.run([sc])[0]
            if isinstance(r, dict): return dict(what='%snew, %s, free: %s' % (PRE[which], calls, r['crash']), script=sc)
            if r[0] > n * 8 + 2000000: return dict(what='%d handles created%s and released: the process grew by %d bytes (one object has %d)' % (n, ', used by ' + calls[0][0] if calls else '', r[0], size), script=sc)
    return None
