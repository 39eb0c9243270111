"""C12, C13: results do not depend on what was calculated before.

The private cells a later call can observe (LIVE, found by executing every operation on an
object whose every cell is arbitrary) that any operation writes are the caches.  The set of
cache states reachable through any history is computed as a finite set of families over the
previous inputs; each operation, started in each family, must deliver term for term what it
delivers on a new object, and must end in a family of the set: an inductive invariant."""
import time, math, itertools
import numpy as np
from engine.check import *
from engine.dag import FNode, BNode, SymInt, uf, parts_of, subst_values
from engine import dag
from engine.ctx import choice, ipairs_values
from .composition import Comp
from .dens import evaluators, parts, find_fn
TITLE = {'detail': 'Detail', 'gerg': 'Gerg2008'}
XS = symbols(); QX = symbols('q_'); T = var('T'); QT = var('q_T')
FLAGS = {'detail': [()], 'gerg': [(0,), (1,), (2,)]}

def terms(vals):
    """terms among cell values (the conditions of integer ones)"""
    return [q for v in vals for q in parts_of(v) if q.__class__ in (FNode, BNode)]

class Caches:
    """live private cells and the ones operations write"""
    def __init__(self, ck, which):
        ctx = ck.ctx; self.which = which; self.deep = 0
        self.pub = set(ctx.fields(which).values())
        self.runs = {}
        for op in ('pressure', 'properties', 'molar_mass'):
            o = havoc(ctx.fresh(which)); b = o.snapshot(); r = o.call(op); self.runs[op] = (b, o.snapshot(), r)
            ck.ran(o.E)
        c = o = havoc(ctx.fresh(which)); b = o.snapshot()
        c = Comp(ctx, E=o.E, S=o.S); o.S = c.S
        r = o.call('set_composition', c.base); self.runs['set_composition'] = (b, o.snapshot(), None); ck.ran(o.E)
        self.outcomes = [q for v, q in ipairs(r) if q.__class__ is BNode]
        roots = []
        for op, (b, a, r) in self.runs.items():
            roots += [a[k][1] for k in self.pub if not dag.same(a[k][1], b[k][1])] + ([r] if r.__class__ is FNode else [])
        live = set(); done = set()
        while True:
            fv = free_vars(terms(roots))
            new = {int(v[1:]) for v in fv if v[0] == 'h' and v[1:].isdigit()} - self.pub - live
            if not new: break
            live |= new; roots = []
            for op, (b, a, r) in self.runs.items(): roots += [a[k][1] for k in new if k in a and (k not in b or not dag.same(a[k][1], b[k][1]))]
        self.live = live
        self.size = {k: n for k, (n, vs) in ctx.kinds(which)[0].items()}      # integer cells that vary
        self.mut = sorted(k for k in live if any(not dag.same(a[k][1], b[k][1]) for b, a, r in self.runs.values()))
        # operations that have to take part in the exploration of histories
        m = set(self.mut)
        def reads(op):
            b, a, r = self.runs[op]
            fv = free_vars(terms([r] + [a[k][1] for k in self.pub | m if k in a and (k not in b or not dag.same(a[k][1], b[k][1]))]))
            return any(v[0] == 'h' and v[1:].isdigit() and int(v[1:]) in m for v in fv)
        self.ops = ['pressure', 'properties'] + [op for op in ('molar_mass', 'set_composition') if reads(op) or any(not dag.same(self.runs[op][1][k][1], self.runs[op][0][k][1]) for k in self.mut)]
        # keys: cells compared to decide what to recompute
        vals = terms([v for b, a, r in self.runs.values() for v in [r] + [a[k][1] for k in self.pub | set(self.mut)]])
        lits = [n for n in topo(vals) if n.__class__ is BNode and n.op in ('olt', 'ole', 'oeq', 'nan')]
        self.keys = {int(v[1:]) for l in lits for a in l.args if a.__class__ is FNode and a.op == 'var' for v in [a.args[0]] if v[0] == 'h' and v[1:].isdigit()} & set(self.mut)
        self.ints = [k for k, (n, v) in ctx.fresh(which).snapshot().items() if v.__class__ not in (float, FNode) and k not in self.size]
    def load(self, o, k):
        return o.S.load(o.base + k, self.size[k], False) if k in self.size else o.S.load(o.base + k, 8, True)

def nonzero(xs): return bnot(band(*[oeq(x, 0.0) for x in xs]))

class Start:
    """an object in a given cache state with given inputs"""
    def __init__(self, ck, cc, cells, xs, t, facts):
        o = self.o = ck.ctx.fresh(cc.which); self.ctx = ck.ctx
        for k in STATE + OUT: o.set(k, var('out_' + k))
        o.set_state(x=xs, t=t, d=var('D'), p=var('P'))
        for k, v in cells.items():
            if v is not UNDEF: o.S.store(o.base + k, cc.size.get(k, 8), v)
        o.E.deep = cc.deep
        for f in facts: o.S.assume(f)
    def run(self, op, *args):
        if op == 'set_composition':
            c = Comp(self.ctx, E=self.o.E, S=self.o.S); self.o.S = c.S; args = (c.base,)
        r = self.o.call(op, *args)
        if op == 'set_composition': r = None      # which compositions are accepted is property C03
        res = {f: self.o.get(f) for f in STATE + OUT}
        res['result'] = r
        return res, self.o

INPUTS = {'any': (XS, T), 'x = 0': ([0.0] * 21, T), 't = 0': (XS, 0.0), 'x = 0, t = 0': ([0.0] * 21, 0.0)}

def relations(dep):
    rs = ['x same', 'x differs'] if 'x' in dep else ['']
    ts = ['t same', 't differs'] if 'T' in dep else ['']
    return [(a, b) for a in rs for b in ts]

def dep_of(cells):
    fv = free_vars(terms(cells.values()))
    return ('x' if any(v.startswith('q_x') for v in fv) else '') + ('T' if 'q_T' in fv else '')

def situation(cells, inp, rel):
    """cells over q_*, inputs and facts; None where impossible"""
    xs, t = INPUTS[inp]
    facts = []
    if xs is XS: facts.append(nonzero(XS))
    if t is T: facts.append(bnot(oeq(T, 0.0)))
    m = {}
    if rel[0] == 'x same':
        if xs is not XS: return None
        for q, x in zip(QX, XS): m[q] = x
        facts += [bnot(dag.isnan(x)) for x in XS]
    elif rel[0] == 'x differs':
        facts.append(nonzero(QX))
        if xs is XS: facts.append(bnot(band(*[oeq(x, q) for x, q in zip(XS, QX)])))
    if rel[1] == 't same':
        if t is not T: return None
        m[QT] = T; facts.append(bnot(dag.isnan(T)))
    elif rel[1] == 't differs':
        facts.append(bnot(oeq(QT, 0.0)))
        if t is T: facts.append(bnot(oeq(T, QT)))
    if m:
        ks = list(cells); vs = subst_values([cells[k] for k in ks], m)
        known = {f.args[0]: 0 for f in facts if f.__class__ is BNode and f.op == 'not' and f.args[0].__class__ is BNode and f.args[0].op == 'nan'}
        cells = dict(zip(ks, subst_values(vs, known)))
    return cells, xs, t, facts

def widen(k, v, start):
    """a part of a cell this operation left alone is replaced by an arbitrary value h_k"""
    if start.__class__ is not FNode or not any(q.startswith('q_') for q in free_vars([start])): return v
    h = var('h_%d' % k); memo = {}
    def go(n):
        if n is start: return h
        if n.__class__ is not FNode or n.op != 'ite': return n
        r = memo.get(n.id)
        if r is None: r = memo[n.id] = fite(n.args[0], go(n.args[1]), go(n.args[2]))
        return r
    return go(v)

def tidy(v, left=('h_',)):
    """where a leftover of earlier calls remains, say canonically under which conditions"""
    if v.__class__ is FNode and any(q[:2] in left for q in free_vars([v])): return dag.decision_tree(v)
    return v

def canonical(cells):
    m = dict(zip(XS, QX)); m[T] = QT
    ks = list(cells); vs = subst_values([cells[k] for k in ks], m)
    return {k: tidy(v) for k, v in zip(ks, vs)}

def key(cells): return tuple((k, v.id if v.__class__ is FNode else ('c', dag.bits(v)) if v.__class__ is float else ('i',) + tuple((x, c if c.__class__ is int else c.id) for x, c in sorted(ipairs(v))) if v.__class__ in (SymInt, BNode) else repr(v)) for k, v in sorted(cells.items()))

def rederive(ck, cc, fams, prov, rel, facts):
    """the cells of a family again, by executing the call that led to it under the facts known
    now (its inputs are numbers, not NaN): the same values, simplified the way the executor does"""
    k0, op, inp, rel0 = prov
    xs = XS if rel[0] == 'x same' else QX; t = 0.0 if inp == 't = 0' else T if rel[1] == 't same' else QT
    s = situation(fams[k0][2], inp, rel0)
    if s is None: return None
    cells, _, _, f0 = s
    names = {var('q_x%d' % i): var('r_x%d' % i) for i in range(21)}; names[QT] = var('r_T')
    ks = list(cells); vs = subst_values([cells[k] for k in ks] + f0, names)
    back = {a: b for a, b in zip(XS + [T], xs + [t]) if a is not b}
    if back: vs = subst_values(vs, back)
    try: st = Start(ck, cc, dict(zip(ks, vs)), xs, t, [f for f in vs[len(ks):] + facts if f.__class__ is BNode]); st.run(op)
    except (Dead, Unsupported): return None
    out = {k: tidy(widen(k, cc.load(st.o, k), cells[k]), ('h_',)) for k in cc.mut}
    fv = free_vars(terms(out.values()))
    return None if any(v[:2] == 'r_' for v in fv) else out

def explore(ck, cc, only=None):
    """only: compare these fields of the operations that deliver them, instead of all"""
    cn = TITLE[cc.which]
    new = ck.ctx.fresh(cc.which); F0 = {k: cc.load(new, k) for k in cc.mut}
    G0 = {k: v if k in cc.size or k in cc.keys and v is not UNDEF else var('h_%d' % k) for k, v in F0.items()}     # a new object and more: unkeyed cells arbitrary
    # are some cells written only where a gas is present?
    st = Start(ck, cc, G0, XS, T, situation(G0, 'any', ('', ''))[3]); st.run('pressure')
    vs = [cc.load(st.o, k) for k in cc.mut]
    if any(v.__class__ is FNode and v.op == 'ite' and any(q.startswith('h_') for q in free_vars([v])) for v in vs): cc.deep = 1
    fams = {key(G0): (0, 'new', G0)}; prov = {}; work = [key(G0)]
    n = 0; refs = {}
    def ref(op, facts, inp):
        """the operation on a new object under the same facts"""
        kk = (op, inp, tuple(sorted(f.id for f in facts)))
        if kk not in refs:
            xs, t = INPUTS[inp]
            refs[kk] = Start(ck, cc, F0, xs, t, facts).run(op)[0]
        return refs[kk]
    while work:
        k0 = work.pop(0); num, label, cells = fams[k0]
        for inp in INPUTS:
            for rel in relations(dep_of(cells)):
                s = situation(cells, inp, rel)
                if s is None: continue
                c2, xs, t, facts = s
                what = 'after history %d%s' % (num, ''.join(', ' + r for r in rel if r))
                for op, more in [(op, []) for op in cc.ops if op != 'set_composition'] + ([('set_composition', [q]) for q in cc.outcomes] if 'set_composition' in cc.ops else []):
                    tm = time.time()
                    try:
                        st = Start(ck, cc, c2, xs, t, facts + more)
                        res, o = st.run(op); ck.ran(o.E)
                    except Dead:
                        if inp != 'any' or more: continue        # contradictory facts: nothing to show
                        raise
                    if inp == 'any':
                        want = ref(op, facts + more, inp)
                        check = lambda res: [f for f in res if (only is None or f in only and (f != 'result' or op == 'molar_mass') and op != 'pressure') and not (res[f] is None and want[f] is None) and not dag.same(res[f], want[f])]
                        bad = check(res)
                        if bad and k0 in prov and 'x same' in rel or bad and k0 in prov and 't same' in rel:
                            c3 = rederive(ck, cc, fams, prov[k0], rel, facts)
                            if c3:
                                r3, o3 = Start(ck, cc, c3, xs, t, facts + more).run(op); b3 = check(r3)
                                if not b3: bad, res, o, c2 = b3, r3, o3, c3
                        ck.ob('%s::%s %s: same results as on a new object' % (cn, op, what), not bad, 'structural', 'differs: %s' % ', '.join(bad), time.time() - tm)
                        if bad: ck.suspects.append((num, rel, op, bad)); ck.hints += [res[f] for f in bad if res[f].__class__ is FNode][:2]
                    out = {k: tidy(widen(k, cc.load(o, k), c2[k]), ('h_', 'q_')) for k in cc.mut}
                    fv = free_vars(terms(out.values()))
                    left = sorted(v for v in fv if v.startswith('q_') or v in ('D', 'P') or v.startswith('out_'))
                    if left:
                        ck.ob('%s::%s %s, %s inputs: caches hold only what follows from the current composition and temperature' % (cn, op, what, inp), False, 'structural', 'still depends on %s' % left[:5], time.time() - tm)
                        continue
                    cf = canonical(out); kf = key(cf); n += 1
                    if kf not in fams:
                        if len(fams) > 24: ck.ob('%s: the set of cache states is finite' % cn, False, 'structural', 'more than 24 families'); return fams
                        fams[kf] = (len(fams), '%s::%s(%s)' % (cn, op, inp), cf); work.append(kf)
                        if not more and inp in ('any', 't = 0'): prov[kf] = (k0, op, inp, rel)
                        if inp == 'any' and dep_of(cells): ck.notes.append('%s %s leads to a new cache state' % (op, what))
    ck.ob('%s: every operation in every reachable cache state ends in one of %d states (inductive)' % (cn, len(fams)), True, 'structural', '')
    ck.reach.append('%s: %d cache cells (%d live private cells), %d reachable families, %d transitions' % (cn, len(cc.mut), len(cc.live), len(fams), n))
    return fams

def plain(ck, cc):
    """molar_mass and set_composition neither read nor write caches"""
    cn = TITLE[cc.which]
    for op in ('molar_mass', 'set_composition'):
        if op in cc.ops: continue        # takes part in the exploration
        b, a, r = cc.runs[op]
        bad = [k for k in cc.mut if not dag.same(a[k][1], b[k][1])]
        ck.ob('%s::%s leaves the caches alone' % (cn, op), not bad, 'structural', '%d cells change' % len(bad))
    if 'molar_mass' not in cc.ops:
        b, a, r = cc.runs['molar_mass']
        fv = free_vars([x for x in [r] + [a[k][1] for k in cc.pub if not dag.same(a[k][1], b[k][1])] if x.__class__ is FNode])
        priv = {int(v[1:]) for v in fv if v[0] == 'h'} - cc.pub
        ck.ob('%s::molar_mass depends on the composition and constants only' % cn, not (priv & set(cc.mut)) and all(int(v[1:]) not in cc.mut for v in fv), 'structural', '%d cache cells read' % len(priv & set(cc.mut)))
    const = [k for k in cc.live if k not in set(cc.mut)]
    for op, (b, a, r) in cc.runs.items():
        bad = [k for k in const if not dag.same(a[k][1], b[k][1])] + [k for k in cc.ints if not dag.same(a[k][1], b[k][1])]
        ck.ob('%s::%s leaves the coefficient tables alone' % (cn, op), not bad, 'structural', '%d cells change' % len(bad))

def density_by_contract(ck, cc, args):
    """density with the contracts of pressure() and properties(): values are functions of
    composition, temperature and density; caches become those of the current inputs"""
    which = cc.which; cn = TITLE[which]; tag = '%s::density(%s)' % (cn, ', '.join(map(str, args)))
    t0 = time.time()
    o = havoc(ck.ctx.fresh(which))
    for k, n in cc.size.items(): o.S.store(o.base + k, n, var('h%d' % k))      # opaque: the search itself may not read them
    b = o.snapshot()
    xs = [o.get('x%d' % i) for i in range(21)]; t = o.get('t')
    calls = [0]
    def hook(e):
        op = e.label
        if op not in cc.runs:
            o2 = havoc(ck.ctx.fresh(which)); bb = o2.snapshot(); rr = e.call(o2, var('any_d')); cc.runs[op] = (bb, o2.snapshot(), rr)
        bb, aa, rr = cc.runs[op]
        ch = [k for k in aa if not dag.same(aa[k][1], bb[k][1])]
        n = 0 if rr is None else len(rr) if isinstance(rr, list) else len(parts(rr))
        agg = e.sret is None and ck.ctx.aga.funcs[e.name].rettype == 'agg'
        def h(E, S, a):
            q, me, d = e.split(a)
            if me.__class__ is not int or me != o.base: raise Unsupported('call on another object')
            calls[0] += 1
            if calls[0] > 300: raise Unbounded('pressure still evaluated after 300 evaluations on one path: no bound on the loop')
            ar = [S.load(o.base + o.off['d'], 8, True) if d is None else d, S.load(o.base + o.off['t'], 8, True)] + [S.load(o.base + o.off['x%d' % i], 8, True) for i in range(21)]
            for k in ch:
                if k in cc.mut: continue
                if k == o.off['d'] and d is not None and dag.same(aa[k][1], var('any_d')): S.store(o.base + k, 8, d)
                else: S.store(o.base + k, cc.size.get(k, 8), uf('%s_%d' % (op, k), ar))
            for k in cc.mut: S.store(o.base + k, cc.size.get(k, 8), uf('cache_%d' % k, ar[1:]))
            return e.give(S, q, [uf(op if n == 1 else '%s_r%d' % (op, j), ar) for j in range(n)], agg)
        return h
    seen = set()
    for op in ('pressure', 'properties'):
        x = havoc(ck.ctx.fresh(which)); x.call(op); seen |= set(x.E.called)
    for e in evaluators(ck, which, seen): o.E.hooks[e.name] = hook(e)
    try: r = o.call('density', *args)
    except Unbounded: raise
    except Unsupported as e: return None
    if not calls[0]: return None
    ck.ran(o.E)
    a = o.snapshot()
    outs = {f: o.get(f) for f in STATE + OUT}; res = []
    roots = [v for f, v in outs.items() if not dag.same(v, b[o.off[f]][1])] + ([q for q in codes(r) if q.__class__ is BNode])
    fv = {int(v[1:]) for v in free_vars([q for q in roots if q.__class__ in (FNode, BNode)]) if v[0] == 'h'}
    bad = sorted(k for k in fv if k in set(cc.mut))
    res.append((tag + ': result and density depend on no cache (contracts of pressure and properties)', not bad, '%d cache cells read' % len(bad)))
    # private scratch cells must be written by pressure() in this call before they are read
    scratch = sorted(k for k in fv if k not in cc.pub and k not in cc.live)
    res.append((tag + ': result and density depend on no leftover of earlier calls', not scratch, 'reads cells %s' % scratch[:5]))
    outp = {o.off[f] for f in OUT}
    stale = sorted(k for k in fv if k in outp)
    dres = [v for f, v in outs.items() if f == 'd'] + [q for q in codes(r) if q.__class__ is BNode]
    fd = {int(v[1:]) for v in free_vars([q for q in dres if q.__class__ in (FNode, BNode)]) if v[0] == 'h'}
    res.append((tag + ': result and density depend on no earlier delivered property', not (fd & outp), str(sorted(fd & outp)[:5])))
    sk = set()
    for k in cc.mut:
        m = {}
        for n in topo([a[k][1]]):
            if n.__class__ is FNode and n.op == 'uf' and n.args[0] == 'cache_%d' % k: m[n] = uf('cache', n.args[1:])
        m[var('h%d' % k)] = var('cache_before')
        v = dag.subst(a[k][1], m); sk.add(v.id if v.__class__ is FNode else repr(v))
    res.append((tag + ': caches end as pressure() or properties() leave them at the current inputs', len(sk) == 1, '%d different patterns' % len(sk)))
    const = [k for k in cc.live if k not in set(cc.mut)] + cc.ints
    res.append((tag + ': coefficient tables unchanged', all(dag.same(a[k][1], b[k][1]) for k in const), ''))
    return res, time.time() - t0

def codes(r): return [c for v, c in ipairs(r)]

def density_inline(ck, cc, args, fams):
    """density executed with everything inlined, from the reachable cache states"""
    tag = '%s::density(%s)' % (TITLE[cc.which], ', '.join(map(str, args))); res = []
    new = ck.ctx.fresh(cc.which); F0 = {k: cc.load(new, k) for k in cc.mut}
    todo = [(num, c, rel) for num, lab, c in fams.values() if num < 3 for rel in relations(dep_of(c)) if num]
    def one(it):
        num, cells, rel = it
        s = situation(cells, 'any', rel)
        if s is None: return []
        c2, xs, t, facts = s
        a, o1 = Start(ck, cc, c2, xs, t, facts).run('density', *args)
        b, o2 = Start(ck, cc, F0, xs, t, facts).run('density', *args)
        bad = [f for f in a if not dag.same(a[f], b[f])]
        nm = '%s after history %d%s: same results as on a new object' % (tag, num, ''.join(', ' + q for q in rel if q))
        return [(nm, not bad, 'differs: %s' % ', '.join(bad))]
    for r in pmap(one, todo):
        if isinstance(r, tuple): res.append((tag + ': executed from every cache state', False, str(r)[:500]))
        else: res += r
    return res

def run(ck):
    which = 'detail' if ck.pid == 'C12' else 'gerg'; cn = TITLE[which]
    ck.suspects = []; ck.notes = []
    ck.assumptions += [ARITH_EUF,
        "inputs of the call whose result is compared: not every mole fraction zero (set_composition never accepts that), temperature not zero, and no input is the negative zero",
        "an object's private cells are only written by its own methods (they are not accessible outside the crate)"]
    ck.contracts += [cn + '::' + f for f in ('pressure', 'properties', 'molar_mass', 'density', 'set_composition')]
    def go():
        cc = Caches(ck, which)
        plain(ck, cc)
        fams = explore(ck, cc)
        def dens(args):
            r = density_by_contract(ck, cc, args)
            return r if r is not None else 'inline'
        for args, r in zip(FLAGS[which], pmap(dens, FLAGS[which])):
            if isinstance(r, tuple) and r and r[0] in ('unsupported', 'dead', 'error'): ck.ob('%s::density(%s): verification conditions generated' % (cn, args), False, 'vcgen', r[1]); continue
            if r == 'inline':
                t = time.time(); rs = density_inline(ck, cc, args, fams)
                for i, (n, ok, d) in enumerate(rs): ck.ob(n, ok, 'structural', d, (time.time() - t) / len(rs))
                continue
            rs, t = r
            for n, ok, d in rs: ck.ob(n, ok, 'structural', d, t / len(rs))
    ck.attempt(cn, go)
    for n in ck.notes[:20]: ck.reach.append(n)
    return ck.finish(lambda k, nat: find(k, nat, which))

# ---------------------------------------------------------------- counterexamples
def find(ck, nat, which):
    """random histories with partial, tiny and invalid changes against a new object"""
    rng = np.random.default_rng(ck.seed)
    from engine.search import compositions, Sampler, conditions
    ops = [('pressure',), ('properties',), ('molar_mass',)] + [('density',) + a for a in FLAGS[which]]
    F = STATE + OUT
    end = time.time() + 150
    batch = []
    def flush():
        res = nat.run([b[0] for b in batch], until=end + 20)
        for (sc, nops), r in zip(batch, res):
            if isinstance(r, dict): return dict(what='history: %s' % r['crash'], script=sc, which=which)
            op = sc['op']; got, want = dict(zip(F, r[-3])), dict(zip(F, r[-1])); rg, rw = r[-4], r[-2]
            names = {'pressure': ['z'], 'properties': OUT + ['p'], 'molar_mass': ['mm']}.get(op[0], ['d'])
            if op[0] == 'density' and len(op) > 1 and op[1] > 0 and rg == 0: names = ['d'] + OUT
            if op[0] == 'properties' and which == 'gerg': names = OUT
            names = [f for f in names if f not in ('d2p_dtd',) or which == 'gerg']
            eq = lambda a, b: a == b or (a is None and b is None) or (a != a and b != b)
            bad = [(f, got[f], want[f]) for f in names if not eq(got[f], want[f])] + ([('result', rg, rw)] if not eq(rg, rw) else [])
            if bad: return dict(what='%s::%s after %d earlier calls on the same object: %s is %r, a new object gives %r' % ((TITLE[which], op[0], nops) + bad[0]), script=sc, which=which)
        return None
    X0 = compositions(rng, 200)
    for k in range(20000):
        if time.time() > end: break
        x = X0[rng.integers(200)].copy(); t = float(rng.uniform(200, 500)); steps = [['new', 'a']]
        n = int(rng.integers(1, 7)); past = [x.copy()]; pt = [t]; few = rng.random() < 0.5
        for j in range(n):
            mode = rng.integers(0, 14) if not few else rng.choice([1, 6, 11, 12, 13])
            if mode == 12: x = past[rng.integers(len(past))].copy(); t = pt[rng.integers(len(pt))]
            elif mode == 13:      # every fraction takes one of its earlier values
                x = np.array([past[rng.integers(len(past))][i] for i in range(21)])
            elif mode == 0: x = X0[rng.integers(200)].copy()
            elif mode == 1: i = rng.integers(21); x[i] = x[i] * (1 + 10.0 ** -rng.uniform(2, 16)) + (10.0 ** -rng.uniform(6, 20) if rng.random() < .3 else 0)
            elif mode == 2: i, q = rng.integers(0, 21, 2); x[i], x[q] = x[q], x[i]
            elif mode == 3: t = float(rng.uniform(100, 900))
            elif mode == 4: t = float(np.nextafter(t, np.inf))
            elif mode == 5: t = t * (1 + 10.0 ** -rng.uniform(2, 15))
            past.append(x.copy()); pt.append(t)
            bad = rng.random() + (0.14 if few else 0)
            xx, tt = x, t
            if bad < 0.06: xx = np.zeros(21)
            elif bad < 0.1: xx = x.copy(); xx[rng.integers(21)] = math.nan
            elif bad < 0.14: tt = [0.0, -1.0, math.nan, math.inf][rng.integers(4)]
            p = float(10 ** rng.uniform(0, 5)); d = float(rng.choice([rng.uniform(0.001, 15), 0.0, 1e-9, -rng.uniform(0.1, 20), 10 ** rng.uniform(-6, 1.3)]))
            if rng.random() < 0.05: p = [0.0, -1.0, math.nan, 1e-20][rng.integers(4)]
            r = rng.random()
            if r < 0.15 and bad >= 0.14: steps.append(['setcomp', 'a', [float(q) for q in xx]])
            elif r < 0.2: steps.append(['setcomp', 'a', [float(q) * rng.choice([0.0, 2.0]) for q in xx]])
            if j == n - 1: break
            inp = dict(x=[float(q) for q in xx], t=tt, p=p, d=d)
            if rng.random() < 0.3: inp.pop(['x', 't', 'p', 'd'][rng.integers(4)])
            steps.append(['set', 'a', inp])
            op = ops[rng.integers(len(ops))]
            steps.append(['call', 'a'] + list(op))
        if not (x.sum() > 0 and t == t and abs(t) > 0 and not np.isnan(x).any()): continue
        inp = dict(x=[float(q) for q in x], t=t, p=float(10 ** rng.uniform(0, 4.5)), d=float(rng.uniform(0.01, 12) if rng.random() < 0.7 else 0.0))
        op = ops[rng.integers(len(ops))]
        steps += [['set', 'a', inp], ['call', 'a'] + list(op), ['get', 'a', F], ['new', 'b'], ['set', 'b', inp], ['call', 'b'] + list(op), ['get', 'b', F]]
        batch.append((dict(which=which, steps=steps, op=list(op)), sum(1 for s in steps if s[0] == 'call') - 2))
        if len(batch) == 400:
            r = flush(); batch = []
            if r: return r
    return flush() if batch else None

def find_mass_history(ck, nat, which):
    """molar mass after other calls against the weighted sum"""
    from engine.search import compositions
    from spec.helmholtz import model
    rng = np.random.default_rng(ck.seed); M = model(which).M; X0 = compositions(rng, 200); end = time.time() + 60
    while time.time() < end:
        sc = []
        for k in range(500):
            x = X0[rng.integers(200)].copy(); steps = [['new', 'a']]; pt = 300.0
            for j in range(int(rng.integers(1, 5))):
                q = rng.random()
                if q < .3: x = X0[rng.integers(200)].copy()
                elif q < .8: i = rng.integers(21); x[i] = x[i] * (1 + 10.0 ** -rng.uniform(1, 9)) + (10.0 ** -rng.uniform(2, 14) if rng.random() < .5 else 0)
                else: i, l = rng.integers(0, 21, 2); x[i], x[l] = x[l], x[i]
                v = [float(q) for q in x]
                steps.append(['setcomp', 'a', v] if rng.random() < .4 else ['set', 'a', dict(x=v, t=300.0, d=1.0, p=1.0)])
                steps.append(['call', 'a', ['molar_mass', 'properties', 'pressure'][int(rng.integers(3))]])
            i = rng.integers(21); x[i] = x[i] + 10.0 ** -rng.uniform(2, 12) if rng.random() < .6 else x[i]
            v = [float(q) for q in x]; op = ['molar_mass', 'properties'][int(rng.integers(2))]
            steps += [['set', 'a', dict(x=v, t=300.0, d=1.0)], ['call', 'a', op], ['get', 'a', ['mm']]]
            sc.append((v, op, dict(which=which, steps=steps)))
        for (v, op, s), r in zip(sc, nat.run([q[2] for q in sc], until=end + 20)):
            if isinstance(r, dict): return dict(what='history: %s' % r['crash'], script=s, which=which)
            e = math.fsum(a * float(b) for a, b in zip(v, M)); g = r[-1][0]
            if not abs(g - e) <= 1e-12 * sum(abs(a * float(b)) for a, b in zip(v, M)):
                return dict(what='%s::%s after earlier calls on the same object: molar mass %r, the weighted sum is %r' % (TITLE[which], op, g, e), script=s, which=which)
    return None
