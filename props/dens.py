"""Executing density() against the contracts of pressure() and properties()."""
import time, re
from engine.check import *
from engine.ctx import choice
from engine.dag import FNode, BNode, uf, ipairs
from engine.ir import split_top
TITLE = {'detail': 'Detail', 'gerg': 'Gerg2008'}
I32 = (1 << 32) - 1

def find_fn(ctx, suffix):
    r = [n for n in ctx.aga.funcs if demangle(n).endswith(suffix)]
    return r[0] if len(r) == 1 else None

def changed(b, a): return [k for k in a if k not in b or not dag.same(a[k][1], b[k][1])]

def flag_classes(ctx):
    """phase flags to examine: every integer constant the function compares with, its
    neighbours, and the extremes (between neighbouring constants all comparisons agree)"""
    cs = {0, 1, 2}
    fn = find_fn(ctx, 'Gerg2008::density')
    if fn:
        f = ctx.aga.funcs[fn]; f.prepare() if not getattr(f, 'params', None) else None
        p = f.params[1]; rx = re.compile(re.escape(p) + r'(?![\w.$-])')
        lines = [l for l in f.body if rx.search(l)]
        direct = all(re.search(r'\b(icmp|switch|dbg)', l) for l in lines)
        for l in lines if direct else f.body:
            m = re.search(r'icmp \w+ i32 (.*)$', l) or re.search(r'switch i32 (.*)$', l) or re.search(r'^\s*i32 (-?\d+), label', l)
            if m: cs |= {int(c) for c in re.findall(r'(?<![\w%.])-?\d+(?![\w.])', m.group(1))}
    out = {-(1 << 31), (1 << 31) - 1}
    for c in cs:
        for d in (-1, 0, 1):
            if -(1 << 31) <= c + d < (1 << 31): out.add(c + d)
    return sorted(out)

def parts(r): return list(r) if r.__class__ is tuple else [r]

class Evaluator:
    """a function of the calculator that delivers the pressure (as its result, as one of several
    results, or through a pointer): self, and possibly the density, are all it is given"""
    def __init__(self, ctx, which, name, label):
        self.ctx = ctx; self.which = which; self.name = name; self.label = label
        f = ctx.aga.funcs[name]; ps = [p.strip() for p in split_top(f.params_raw)] if f.params_raw.strip() else []
        self.sret = None
        if ps and 'sret(' in ps[0]:
            m = re.search(r'sret\((.*?)\) ', ps[0] + ' '); m2 = re.match(r'\[(\d+) x i8\]$', m.group(1)) if m else None
            self.sret = int(m2.group(1)) if m2 else None
            if not m2: raise Unsupported('sret ' + ps[0])
            ps = ps[1:]
        if not ps or not ps[0].startswith('ptr') or len(ps) > 2 or len(ps) == 2 and not ps[1].startswith('double'): raise Unsupported('signature')
        self.arg = len(ps) == 2
    def call(self, o, d=None):
        """results (values in order)"""
        args = [o.base] + ([d] if self.arg else [])
        if self.sret is None:
            r, o.S = o.E.call2(self.ctx.aga, self.name, args, o.S); return parts(r)
        q = o.E.new_obj(self.sret, 'ext', 'result'); _, o.S = o.E.call2(self.ctx.aga, self.name, [q] + args, o.S)
        return [o.S.load(q + k, 8, True) for k in range(0, self.sret, 8)]
    def split(self, args):
        """(result pointer, self, density) of a call"""
        args = list(args); q = args.pop(0) if self.sret is not None else None
        return q, args[0], args[1] if self.arg else None
    def give(self, S, q, vals, agg):
        if q is None: return tuple(vals) if agg else vals[0] if vals else None
        for k, v in enumerate(vals): S.store(q + 8 * k, 8, v)
        return None

def evaluators(ck, which, called):
    """pressure(), properties() and the functions pressure() or properties() delegate to that
    deliver the pressure themselves"""
    ctx = ck.ctx; cn = TITLE[which]; out = []; names = {}
    for op in ('pressure', 'properties'):
        fn = find_fn(ctx, cn + '::' + op)
        if fn:
            try: out.append(Evaluator(ctx, which, fn, op)); names[fn] = op
            except Unsupported: pass
    D = var('any_d'); P = None
    for fn in sorted(called):
        if fn in names or fn not in ctx.aga.funcs or not demangle(fn).startswith('aga8::'): continue
        try: e = Evaluator(ctx, which, fn, 'q%d' % len(out))
        except Unsupported: continue
        f = ctx.aga.funcs[fn]
        if e.sret is None and f.rettype not in ('double', 'agg'): continue
        if re.search(r'::(pressure|properties|density|molar_mass|pseudocriticalpoint|set_composition)$', demangle(fn)): continue
        try:
            if P is None:
                o = havoc(ctx.fresh(which)); o.set('d', D); P = o.call('pressure')
            o = havoc(ctx.fresh(which)); o.set('d', D) if not e.arg else None
            rs = e.call(o, D)
        except (Unsupported, Dead, KeyError, AttributeError, TypeError): continue
        if any(dag.same(q, P) for q in rs) and all(q.__class__ in (float, FNode) for q in rs): out.append(e)
    return out

class Ops:
    """pressure() and properties() (and what delivers the pressure inside them) executed on an
    arbitrary object: what they change"""
    def __init__(self, ck, which, ctor='new'):
        self.which = which; self.ck = ck; self.ctor = ctor
        self.runs = {}; called = set()
        for op in ('pressure', 'properties'):
            o = havoc(ck.ctx.fresh(which, ctor)); b = o.snapshot(); n0 = len(o.E.reports)
            r = o.call(op); self.runs[op] = (o, b, o.snapshot(), r)
            ck.ran(o.E); called |= set(o.E.called)
        self.evs = evaluators(ck, which, called)
        for e in self.evs:
            if e.label in self.runs: continue
            o = havoc(ck.ctx.fresh(which, ctor)); b = o.snapshot(); r = e.call(o, var('any_d')); self.runs[e.label] = (o, b, o.snapshot(), r)
    def hook(self, o, counts):
        """replace the calls to them on o by their contracts"""
        ints = o.ctx.kinds(self.which, self.ctor)[0]
        def make(e):
            op = e.label; _, b, a, r = self.runs[op]; ch = changed(b, a); rs = [] if r is None else parts(r) if not isinstance(r, list) else r
            agg = e.sret is None and self.ck.ctx.aga.funcs[e.name].rettype == 'agg'
            def h(E, S, args):
                q, me, d = e.split(args)
                if me.__class__ is not int or me != o.base: raise Unsupported('%s called on another object' % op)
                counts[op] = counts.get(op, 0) + 1
                if counts[op] > 150: raise Unbounded('%s still called after 150 evaluations on one path: no bound on the loop' % op)
                i = sum(counts.values())
                ar = [S.load(o.base + o.off['d'], 8, True) if d is None else d, S.load(o.base + o.off['t'], 8, True)] + [S.load(o.base + o.off['x%d' % i], 8, True) for i in range(21)]
                for k in ch:
                    if k == o.off['d'] and d is not None and dag.same(a[k][1], var('any_d')): S.store(o.base + k, 8, d)
                    elif a[k][0] == 8 and a[k][1].__class__ in (float, FNode): S.store(o.base + k, 8, uf('%s_%d_%d' % (op, i, k), ar))
                    elif k in ints: S.store(o.base + k, ints[k][0], choice(ints[k][1], uf('%s_%d_%d' % (op, i, k), ar)))
                    else: raise Unsupported('%s changes an integer cell' % op)
                return e.give(S, q, [uf('%s_%d' % (op, i) if len(rs) == 1 else '%s_%d_%d' % (op, i, -1 - j), ar) for j in range(len(rs))], agg)
            return h
        for e in self.evs: o.E.hooks[e.name] = make(e)
        return len(self.evs)
    def evaluations(self, counts): return sum(n for op, n in counts.items() if op != 'properties')

def density(ck, ops, which, args, start=None):
    """density() on an arbitrary object; (object, before, after, result, counts)"""
    for mode in ('contract', 'inline'):
        o = start() if start else havoc(ck.ctx.fresh(which, ops.ctor))
        b = o.snapshot(); counts = {}
        if mode == 'contract':
            ops.hook(o, counts)
        try: r = o.call('density', *[a & I32 for a in args])
        except Unbounded: raise
        except Unsupported as e:
            if mode == 'inline': raise
            continue
        return o, b, o.snapshot(), r, counts, mode
