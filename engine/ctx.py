"""One run's context: the build of /repo, the parsed IR, and helpers to execute
operations of the crate symbolically through the probe wrappers."""
import time
from .build import Build, REPO
from .ir import Module
from .symex import Engine, State, Mem, Unsupported, UNDEF, OBJ, OMASK, Dead
from .dag import *
from .dag import FNode, BNode
from . import dag

OUT = ['z', 'mm', 'dp_dd', 'd2p_dd2', 'd2p_dtd', 'dp_dt', 'u', 'h', 's', 'cv', 'cp', 'w', 'g', 'jt', 'kappa']
STATE = ['t', 'p', 'd']
GASES = ['methane', 'nitrogen', 'carbon_dioxide', 'ethane', 'propane', 'isobutane', 'n_butane', 'isopentane',
         'n_pentane', 'hexane', 'heptane', 'octane', 'nonane', 'decane', 'hydrogen', 'oxygen', 'carbon_monoxide',
         'water', 'hydrogen_sulfide', 'helium', 'argon']
X0 = {'detail': 0, 'gerg': 1}
CAP = {'detail': 'Detail', 'gerg': 'Gerg2008'}

class Ctx:
    def __init__(self):
        self.build = Build()
        self.lay = self.build.load_layout()
        self.aga = Module(self.build.ll, 'aga8'); self.probe = Module(self.build.probe_ll, 'probe')
        self.t_build = self.build.seconds
        self.fresh_ = {}; self.kinds_ = {}
    def fresh(self, which, ctor='new'):
        """a newly created object (the constructor is executed once per run)"""
        o = self.fresh_.get((which, ctor))
        if o is None: o = self.fresh_[(which, ctor)] = Obj(self, which); o.call(ctor); o.ctor = ctor; o.new_reports = list(o.E.reports)
        return o.fork()
    def kinds(self, which, ctor='new'):
        """cells of an object whose kind or value set is not the one the constructor leaves: the integer
        cells that operations change, with every value they can take ({offset: (size, values)}), and the
        floating-point cells that are first written later; the least sets closed under every operation
        that can leave its result in the object (density does so through pressure and properties)"""
        k = self.kinds_.get((which, ctor))
        if k is not None: return k
        base = self.fresh(which, ctor).snapshot(); k = self.kinds_[(which, ctor)] = ({}, {})
        for rnd in range(8):
            more = False
            for op in ('set_composition', 'molar_mass', 'pressure', 'properties'):
                try:
                    o = havoc(self.fresh(which, ctor))
                    if op == 'set_composition':
                        from props.composition import Comp
                        c = Comp(self, E=o.E, S=o.S); o.S = c.S; o.call(op, c.base)
                    else: o.call(op)
                except (Unsupported, Dead): continue       # reported where the operation itself is examined
                for a, (n, v) in o.snapshot().items():
                    fp = v.__class__ in (float, FNode); old = base.get(a)
                    if old is None or old[0] != n:
                        if fp and n == 8 and old is None and a not in k[1]: k[1][a] = 8; more = True
                        if fp or old is not None: continue
                    elif fp or old[1].__class__ in (float, FNode): continue
                    if v.__class__ not in (int, SymInt, BNode): continue
                    have = set(k[0].get(a, (n, ipairs_values(old[1]) if old else ()))[1])
                    vs = have | set(ipairs_values(v))
                    if vs != have and len(vs) <= 16: k[0][a] = (n, tuple(sorted(vs))); more = True
            if not more: break
        return k
    def close(self): self.build.close()
    def engine(self):
        return Engine([self.aga, self.probe])
    def fields(self, which):
        L = self.lay
        d = {f: L['%s.%s' % (which, f)] for f in STATE + OUT}
        for i in range(21): d['x%d' % i] = L[which + '.x'] + 8 * (i + X0[which])
        return d
    def source_hash(self): return self.build.source_hash()

class Obj:
    """An object of one of the two calculators inside an engine."""
    def __init__(self, ctx, which, E=None, S=None, name='self'):
        self.ctx = ctx; self.which = which
        self.E = E or ctx.engine()
        self.size = ctx.lay[which + '.size']
        self.base = self.E.new_obj(self.size, 'ext', name)
        self.S = S or State(self.E)
        self.off = ctx.fields(which)
    def call(self, op, *args):
        r, self.S = self.E.call2(self.ctx.probe, 'vp_%s_%s' % (self.which, op), [self.base] + list(args), self.S)
        return r
    def fork(self):
        o = Obj.__new__(Obj); o.__dict__.update(self.__dict__)
        self.S.mem.live = 1 << 30      # the base state stays as it is; forks write to a layer of their own
        o.S = State(self.E, Mem(self.S.mem), self.S.pc)
        self.E.reports = list(getattr(self, 'new_reports', []))
        return o
    def new(self): self.call('new'); return self
    def get(self, f): return self.S.load(self.base + self.off[f], 8, True)
    def set(self, f, v): self.S.store(self.base + self.off[f], 8, v)
    def set_state(self, x=None, **kw):
        if x is not None:
            for i in range(21): self.set('x%d' % i, x[i])
        for k, v in kw.items(): self.set(k, v)
    def outputs(self, names=OUT): return {f: self.get(f) for f in names}
    def snapshot(self):
        """all cells of the object: {offset: (size, value)}"""
        out = {}; k = 0
        while k < self.size:
            c = self.S.raw(self.base + k)
            if c is not None: out[k] = c; k += c[0]
            else: k += 1
        return out

def symbols(prefix=''):
    return [var(prefix + 'x%d' % i) for i in range(21)]

def havoc(o, prefix='h', keep=()):
    """give every floating-point cell of the object an arbitrary value; the machine-integer cells
    keep the values the constructor gives them, or where operations change them take any of the
    values they can ever have"""
    ints, fps = o.ctx.kinds(o.which, getattr(o, 'ctor', 'new'))
    for k, (n, vs) in ints.items():
        if k not in keep: o.S.store(o.base + k, n, choice(vs, var('%s%d' % (prefix, k))))
    for k in fps:
        if k not in keep: o.S.store(o.base + k, 8, var('%s%d' % (prefix, k)))
    for k, (n, v) in o.snapshot().items():
        if n == 8 and (v.__class__ is float or v.__class__ is FNode) and k not in keep:
            o.S.store(o.base + k, 8, var('%s%d' % (prefix, k)))
    return o

def ipairs_values(v): return [x for x, c in ipairs(v)]

def choice(vs, sel):
    """one of the integers vs, selected by the value of sel"""
    out = []; rest = 1
    for i, v in enumerate(vs):
        c = olt(sel, float(i + 1)) if i < len(vs) - 1 else 1
        out.append((v, band(rest, c))); rest = band(rest, bnot(c)) if c.__class__ is BNode else rest
    return symint(out)

def public_offsets(ctx, which):
    return {v: k for k, v in ctx.fields(which).items()}
