"""Symbolic executor / verification-condition generator for rustc's LLVM IR.

Executes functions on symbolic inputs; forks on undetermined branches and merges
again at control-flow joins (weak topological order, every loop body contiguous),
so the result of a call is one symbolic state covering all paths.  Every reachable
panic, invalid access, or unsupported construct is recorded."""
import re, math, itertools, heapq, time
T_START = time.time()
from .dag import *
from .dag import FNode, BNode, SymInt
from . import dag, bdd
from .ir import Module, Function, split_top, ty_size, ty_align, _ty_end, _attr, parse_fp

OBJ = 32
OMASK = (1 << OBJ) - 1
class Dead(Exception): pass

class Mem:
    __slots__ = ("d", "parent", "live")
    def __init__(self, parent=None):
        self.d = {}; self.parent = parent; self.live = 0
    def get(self, a):
        m = self
        while m is not None:
            c = m.d.get(a)
            if c is not None: return c
            m = m.parent
        return None

class Obj:
    __slots__ = ("size", "kind", "name", "blob", "rel", "mod", "ro", "dirty")
    def __init__(s, size, kind, name): s.dirty = False; s.size = size; s.kind = kind; s.name = name; s.blob = None; s.rel = None; s.mod = None; s.ro = False

class State:
    __slots__ = ("mem", "pc", "E")
    def __init__(s, E, mem=None, pc=frozenset()):
        s.E = E; s.mem = mem or Mem(); s.pc = pc
    # ---- path facts
    def known(s, b):
        if b.__class__ is int: return b
        return known(b, s.pc)
    def decide(s, b):
        k = s.known(b)
        if k is None and s.E.decider is not None:
            k = s.E.decider(s.pc, b)
        return k
    def assume(s, b):
        if b.__class__ is int:
            if not b: raise Dead()
            return
        r = band(b, *s.pc) if len(s.pc) < 60 else None
        if r is not None:
            if r.__class__ is int:
                if not r: raise Dead()
                s.pc = frozenset(); return
            s.pc = frozenset(r.args) if r.op == 'and' else frozenset([r])
        else:
            add = b.args if b.op == 'and' else [b]
            for x in add:
                if bnot(x) in s.pc: raise Dead()
            s.pc = s.pc | frozenset(add)
    # ---- memory
    def raw(s, a): 
        c = s.mem.get(a)
        return None if c is None or c[0] == 0 else c
    def check(s, a, n, what):
        if a.__class__ is not int: raise Unsupported("symbolic address")
        o = s.E.objs.get(a >> OBJ)
        if o is None or (a & OMASK) + n > o.size:
            s.E.report(s, "invalid %s of %d bytes at %s" % (what, n, s.E.where(a)))
            raise Dead()
        if o.kind == 'heap' and s.raw(('freed', a >> OBJ)):
            s.E.report(s, "use after free (%s) of %s" % (what, s.E.where(a)))
            raise Dead()
        return o
    def possible(s, c):
        """can condition c hold here? (propositional: comparisons are atoms)"""
        E = s.E
        r = E.bdd.sat(band(c, *s.pc))
        if r is not None: return r
        from . import fpz3
        import z3
        if E.prop is None: E.prop = fpz3.Prop()
        S = z3.Solver(); S.set('timeout', 5000); S.add(*[E.prop.go(x) for x in s.pc], E.prop.go(c))
        return S.check() != z3.unsat
    def targets(s, a, n, what):
        """places a conditional pointer may refer to; an invalid one that is possible is reported,
        and the execution goes on where the pointer is valid"""
        out = []; bad = []
        for v, c in list(a.vals.items()):
            if s.known(c) == 0: continue
            o = s.E.objs.get(v >> OBJ)
            if o is None or (v & OMASK) + n > o.size or what == "write" and o.ro or o.kind == 'heap' and s.raw(('freed', v >> OBJ)): bad.append((v, c))
            else: out.append((v, c))
        for v, c in bad:
            if s.possible(c):
                t = State(s.E, s.mem, s.pc)
                try: t.assume(c)
                except Dead: continue
                s.E.report(t, "invalid %s of %d bytes at %s" % (what, n, s.E.where(v)))
                s.assume(bnot(c))
        out = [(v, c) for v, c in out if s.known(c) != 0]
        if not out: raise Dead()
        return out
    def load(s, a, n, fl):
        """n bytes at a; fl: as floating point"""
        if a.__class__ is SymInt:
            vals = [(c, s.load(v, n, fl)) for v, c in s.targets(a, n, "read")]
            r = vals[-1][1]
            for c, v in reversed(vals[:-1]):
                r = merge_val(c, v, r)
            return r
        o = s.check(a, n, "read")
        if s.E.on_read is not None: s.E.on_read(s, a, n)
        c = s.mem.get(a)
        if c is None or c[0] != n:
            v = s.load_slow(a, n, o)
        else: v = c[1]
        cl = v.__class__
        if fl:
            if cl is int: v = from_bits(v)
            elif cl is SymInt:
                ps = ipairs(v); r = from_bits(ps[-1][0])
                for x, cc in reversed(ps[:-1]): r = fite(cc, from_bits(x), r)
                v = r
            elif cl is BNode: raise Unsupported("bool read as float")
            elif cl is FNode:
                if v.op == 'ite' and s.pc: v = s.settle(v)
        elif cl is SymInt:
            if s.E.splitting: v = s.prune(v)
        elif cl is float: v = bits(v)
        elif cl is Conflict: raise Unsupported("read of inconsistent merge at " + s.E.where(a))
        return v
    def prune(s, v):
        """drops the alternatives the path facts exclude"""
        if not s.pc: return v
        out = {}
        care = None; B = s.E.bdd
        for x, c in v.vals.items():
            if c.__class__ is int: k = c
            elif s.E.splitting and B.weight(c) > 12:
                if care is None: care = band(*s.pc)
                c = B.restrict(c, care)
                k = c if c.__class__ is int else None
            else: k = known(c, s.pc)
            if k == 1: return x
            if k is None: out[x] = c
        if len(out) == len(v.vals) and care is None: return v
        if len(out) == 1: return next(iter(out))
        return SymInt(out) if out else v
    def settle(s, v):
        """a conditional value read where some of its conditions are settled"""
        E = s.E
        if E.settled_pc is not s.pc: E.settled_pc = s.pc; E.settled = {}
        memo = E.settled; pc = s.pc
        while v.__class__ is FNode and v.op == 'ite':
            k = known(v.args[0], pc)
            if k is None: break
            v = v.args[1] if k else v.args[2]
        if not E.deep: return v
        def go(n):
            if n.__class__ is not FNode or n.op != 'ite': return n
            r = memo.get(n.id)
            if r is None:
                k = known(n.args[0], pc)
                if k is None:
                    a = go(n.args[1]); b = go(n.args[2])
                    r = n if a is n.args[1] and b is n.args[2] else fite(n.args[0], a, b)
                else: r = go(n.args[1] if k else n.args[2])
                memo[n.id] = r
            return r
        return go(v)
    def load_slow(s, a, n, o):
        # exact bytes from smaller/larger cells or from the initialiser
        if n == 16:
            c, c2 = s.raw(a), s.raw(a + 8)
            if c is not None and c2 is not None and c[0] == 8 == c2[0] and (c[1].__class__ in (FNode, float) or c2[1].__class__ in (FNode, float)): return Wide(c[1], c2[1])
        if o.blob is not None and not o.dirty:
            off = a & OMASK
            if n == 8 and o.rel:
                r = s.E.reloc_at(o, off)
                if r is not None: return r
            return int.from_bytes(o.blob[off:off + n], 'little')
        for back in range(0, 16):
            c = s.raw(a - back)
            if c is not None:
                if c[0] >= back + n:
                    v = c[1]
                    if v is UNDEF: return UNDEF
                    if v.__class__ is float: v = bits(v)
                    if v.__class__ is FNode: raise Unsupported("partial read of a symbolic double")
                    return imap(lambda w: (w >> (8 * back)) & ((1 << 8 * n) - 1), v)
                if c[0] > back: break
        # assemble
        out = None; k = 0
        while k < n:
            c = s.raw(a + k)
            if c is None or c[0] > n - k:
                if o.blob is not None and not s._covered(a + k):
                    if s.E.reloc_at(o, (a + k) & OMASK) is not None and k == 0 and n == 8:
                        return s.E.reloc_at(o, (a + k) & OMASK)
                    piece, sz = o.blob[(a + k) & OMASK], 1
                else:
                    return UNDEF
            else:
                piece, sz = c[1], c[0]
                if piece is UNDEF: return UNDEF
                if piece.__class__ is float: piece = bits(piece)
                if piece.__class__ is FNode: raise Unsupported("partial read of a symbolic double")
            kk = k
            out = imap(lambda p: p << (8 * kk), piece) if out is None else imap2(lambda p, q: p | (q << (8 * kk)), out, piece)
            k += sz
        return out
    def _covered(s, a):
        for back in range(0, 16):
            c = s.raw(a - back)
            if c is not None and c[0] > back: return True
        return False
    def store(s, a, n, v):
        if a.__class__ is SymInt:
            for x, c in s.targets(a, n, "write"):
                fl = v.__class__ in (float, FNode)
                old = s.load(x, n, fl)
                s.store(x, n, merge_val(c, v, old))
            return
        if n == 16 and a.__class__ is int:
            cl = v.__class__
            if cl is Wide: s.store(a, 8, v.lo); s.store(a + 8, 8, v.hi); return
            if cl is int or cl is SymInt or cl is BNode:
                s.store(a, 8, imap(lambda w: w & M64, v)); s.store(a + 8, 8, imap(lambda w: w >> 64 & M64, v)); return
        o = s.check(a, n, "write")
        o.dirty = True
        if o.ro:
            s.E.report(s, "write to read-only memory at " + s.E.where(a)); raise Dead()
        if s.E.on_write is not None: s.E.on_write(s, a, n)
        if o.size != n:
            c = s.mem.get(a)
            if c is None or c[0] != n: s.invalidate(a, n)
        s.mem.d[a] = (n, v)
    def invalidate(s, a, n):
        get = s.mem.get; d = s.mem.d
        for x in range(a - 15, a + n):
            c = get(x)
            if c is not None and c[0] and x + c[0] > a:
                if x < a or x + c[0] > a + n or (x == a and c[0] > n):
                    # split the part that survives into bytes
                    v = c[1]
                    if v.__class__ is float: v = bits(v)
                    if v.__class__ is FNode: 
                        d[x] = (0, None); continue
                    d[x] = (0, None)
                    if v is UNDEF: continue
                    for k in range(c[0]):
                        if not (a <= x + k < a + n):
                            kk = k
                            d[x + k] = (1, imap(lambda w: (w >> (8 * kk)) & 255, v))
                else:
                    d[x] = (0, None)
    def memcpy(s, dst, src, n):
        if n.__class__ is not int: raise Unsupported("memcpy of symbolic length")
        if n == 0: return
        if src.__class__ is SymInt and dst.__class__ is int and n % 8 == 0 and n <= 4096:
            s.targets(src, n, "read")
            for k in range(0, n, 8): s.store(dst + k, 8, s.load(imap(lambda v: v + k, src), 8, False))
            return
        if dst.__class__ is SymInt or src.__class__ is SymInt: raise Unsupported("memcpy through symbolic pointer")
        so = s.check(src, n, "read"); do = s.check(dst, n, "write")
        if s.E.on_read is not None: s.E.on_read(s, src, n)
        if s.E.on_write is not None: s.E.on_write(s, dst, n)
        if so.ro and not do.dirty and n == do.size and n >= 64 and (do.kind == 'stack'):
            # first copy of constant data into a fresh local: share the initialiser
            off = src & OMASK; bl = so.blob[off:off + n]
            if do.blob is None:
                do.blob = bl; do.mod = so.mod
                do.rel = [(x - off, nm) for x, nm in so.rel if off <= x < off + n]
                return
            if do.blob == bl: return
        do.dirty = True
        cells = []; k = 0
        while k < n:
            c = s.raw(src + k)
            if c is not None and k + c[0] <= n:
                cells.append((k, c)); k += c[0]; continue
            if so.blob is not None and not s._covered(src + k):
                off = (src + k) & OMASK
                r = s.E.reloc_at(so, off)
                if r is not None and k + 8 <= n: cells.append((k, (8, r))); k += 8; continue
                if off % 8 == 0 and k + 8 <= n and not any(s.raw(src + k + j) for j in range(8)):
                    cells.append((k, (8, int.from_bytes(so.blob[off:off+8], 'little')))); k += 8
                else:
                    cells.append((k, (1, so.blob[off]))); k += 1
                continue
            k += 1
        get = s.mem.get; d = s.mem.d
        have = dict(cells); k = 0
        s.invalidate_edges(dst, n)
        while k < n:
            c = have.get(k)
            x = dst + k
            if c is not None:
                d[x] = c
                for j in range(1, c[0]):
                    y = get(x + j)
                    if y is not None and y[0]: d[x + j] = (0, None)
                k += c[0]
            else:
                y = get(x)
                if y is not None and y[0]: d[x] = (0, None)
                k += 1
    def invalidate_edges(s, a, n):
        for back in range(1, 16):
            c = s.raw(a - back)
            if c is not None and c[0] > back: s.invalidate(a, 1)
        for back in range(1, 16):
            c = s.raw(a + n - back)
            if c is not None and c[0] > back: s.invalidate(a + n - 1, 1)
    def memset(s, a, v, n):
        s.check(a, n, "write") if n else None
        k = 0
        if v.__class__ is not int: raise Unsupported("memset of symbolic byte")
        while k < n:
            if k + 8 <= n: s.store(a + k, 8, int.from_bytes(bytes([v]) * 8, 'little')); k += 8
            else: s.store(a + k, 1, v); k += 1
    def compact(s):
        """absorb this state's memory layer into a parent nobody else uses"""
        m = s.mem
        while m.parent is not None and m.parent.live == 1:
            q = m.parent; q.d.update(m.d); q.live = 0; m = q
        s.mem = m
    def fork(s):
        s.compact()
        m = s.mem; m.live = 2
        t = State(s.E, Mem(m), s.pc); s.mem = Mem(m)
        return t
    def release(s):
        """state dies"""
        m = s.mem.parent
        while m is not None:
            m.live -= 1
            if m.live > 0: break
            m = m.parent
    # convenience for contracts
    def f64(s, a): return s.load(a, 8, True)
    def setf64(s, a, v): s.store(a, 8, v)

SPLIT = 5    # a loop cell with this many alternatives after one join is executed value by value
class Conflict:
    pass
CONFLICT = Conflict()
M64 = (1 << 64) - 1
class Wide:
    """16 bytes moved as one integer, holding two 8-byte values"""
    __slots__ = ("lo", "hi")
    def __init__(s, lo, hi): s.lo = lo; s.hi = hi
class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()

def known(b, pc):
    """truth of b under the path facts pc (None: undecided); propositional, shared subterms once"""
    if b.__class__ is int: return b
    if b in pc: return 1
    op = b.op
    if op == 'not' and b.args[0].op != 'and': return 0 if b.args[0] in pc else None
    if op != 'not' and op != 'and': return 0 if b.neg is not None and b.neg in pc else None
    return _known(b, pc, {})
def _known(b, pc, memo):
    if b in pc: return 1
    op = b.op
    if op == 'not':
        k = _known(b.args[0], pc, memo)
        return None if k is None else 1 - k
    if b.neg is not None and b.neg in pc: return 0
    if op == 'and':
        if b.id in memo: return memo[b.id]
        r = 1
        for x in b.args:
            k = _known(x, pc, memo)
            if k == 0: r = 0; break
            if k is None: r = None
        memo[b.id] = r
        return r
    return None

def merge_val(c, a, b):
    if same(a, b): return a
    ca, cb = a.__class__, b.__class__
    if ca is Undef: return b
    if cb is Undef: return a
    if ca is Wide or cb is Wide: pass
    elif ca is FNode or cb is FNode or (ca is float or cb is float):
        if ca is int: a = from_bits(a); ca = float
        if cb is int: b = from_bits(b); cb = float
        if ca in (float, FNode) and cb in (float, FNode): return fite(c, a, b)
        return CONFLICT
    if ca is tuple and cb is tuple and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if ca is Wide or cb is Wide:
        if ca is int: a = Wide(a & M64, a >> 64); ca = Wide
        if cb is int: b = Wide(b & M64, b >> 64); cb = Wide
        return Wide(merge_val(c, a.lo, b.lo), merge_val(c, a.hi, b.hi)) if ca is cb else CONFLICT
    if ca is Conflict or cb is Conflict or a is None or b is None: return CONFLICT
    if (ca is BNode or cb is BNode) and ca in (BNode, int) and cb in (BNode, int) : 
        if (ca is BNode or a in (0, 1)) and (cb is BNode or b in (0, 1)): return bite(c, a, b)
    return iite(c, a, b)

class Engine:
    def __init__(self, modules):
        self.mods = modules
        self.objs = {}
        self.next_obj = 16
        self.gaddr = {}
        self.faddr = {}; self.addrf = {}
        self.hooks = {}
        self.jit = {}
        self.decider = None; self.prop = None
        self.deep = 0; self.settled_pc = None; self.settled = {}
        self.on_read = None; self.on_write = None
        self.reports = []          # (message, pc)
        self.failures_expected = None
        self.called = {}           # function name -> number of executions (coverage)
        self.forks = 0; self.merges = 0; self.steps = 0
        self.max_steps = 40_000_000; self.deadline = min(time.time() + 420, T_START + 600)
        self.wide = set(); self.cand = set(); self.bdd = bdd.BDD(); self.splitting = 0
        self.stack = []
        self.dead_objs = set()
        self.heap = []
    # ---- objects
    def new_obj(self, size, kind, name):
        i = self.next_obj; self.next_obj += 1
        self.objs[i] = Obj(size, kind, name)
        return i << OBJ
    def where(self, a):
        if a.__class__ is not int: return repr(a)
        o = self.objs.get(a >> OBJ)
        return "%s+%d" % (o.name, a & OMASK) if o else "address 0x%x" % a
    def report(self, S, msg):
        self.reports.append((msg, S.pc, list(self.stack)))
    def reloc_at(self, o, off):
        if not o.rel: return None
        for x, nm in o.rel:
            if x == off: return self.global_addr(o.mod, nm)
        return None
    def find_func(self, mod, name):
        if mod is not None and name in mod.funcs: return mod.funcs[name]
        for m in self.mods:
            f = m.funcs.get(name)
            if f is not None and ' internal ' not in f.header.split('@')[0] and ' private ' not in f.header.split('@')[0]: return f
        return None
    def global_addr(self, mod, name):
        f = self.find_func(mod, name)
        if f is not None or any(name in m.decls for m in self.mods):
            if name not in self.faddr:
                a = self.new_obj(0, 'func', name); self.faddr[name] = a; self.addrf[a] = (mod, name)
            return self.faddr[name]
        key = (mod.tag, name)
        if key not in self.gaddr:
            g = mod.globals.get(name)
            if g is None:
                for m in self.mods:
                    if name in m.globals: g = m.globals[name]; mod2 = m; break
                else: raise Unsupported("global " + name)
                return self.global_addr(mod2, name)
            data, rel = g
            if data is None: raise Unsupported("global initialiser of " + name)
            a = self.new_obj(len(data), 'global', name)
            o = self.objs[a >> OBJ]; o.blob = data; o.rel = rel; o.mod = mod; o.ro = True
            self.gaddr[key] = a
        return self.gaddr[key]

    # ---- calling
    def call(self, mod, name, args, S):
        return self.call2(mod, name, args, S)

    def external(self, name, args, S):
        if 'panic' in name or 'unwrap_failed' in name or 'expect_failed' in name or 'slice_index' in name or 'handle_alloc_error' in name or 'slice_' in name and 'fail' in name or 'len_mismatch' in name or 'not_enum' in name:
            self.report(S, "panic: " + demangle_tail(name))
            raise Dead()
        if name.endswith('rust_no_alloc_shim_is_unstable_v2') or 'rust_no_alloc_shim' in name: return None
        if 'rust_dealloc' in name:
            a = args[0]
            if a.__class__ is not int: raise Unsupported("dealloc of symbolic pointer")
            o = self.objs.get(a >> OBJ)
            if o is None or o.kind != 'heap' or (a & OMASK) != 0:
                self.report(S, "dealloc of a pointer that is not a heap block: " + self.where(a)); raise Dead()
            if S.raw(('freed', a >> OBJ)):
                self.report(S, "double free of " + self.where(a)); raise Dead()
            if o.size != args[1]:
                self.report(S, "dealloc with size %r of a block of size %d" % (args[1], o.size)); raise Dead()
            S.mem.d[('freed', a >> OBJ)] = (1, 1)
            return None
        if 'rust_alloc_zeroed' in name:
            a = self.new_obj(args[0], 'heap', 'heap%d' % len(self.heap)); self.heap.append(a)
            self.objs[a >> OBJ].blob = bytes(args[0])
            return a
        if 'rust_realloc' in name:
            p, old, _, new = args
            if any(x.__class__ is not int for x in (p, old, new)): raise Unsupported("realloc of symbolic size")
            a = self.new_obj(new, 'heap', 'heap%d' % len(self.heap)); self.heap.append(a)
            S.check(p, 1, "read"); S.memcpy(a, p, min(old, new))
            self.external('__rust_dealloc', [p, old, 8], S)
            return a
        if 'rust_alloc' in name:
            a = self.new_obj(args[0], 'heap', 'heap%d' % len(self.heap)); self.heap.append(a)
            return a
        if name in dag.FUN1 or name in dag.FUN2 or name == 'fma': return dag.fun(name, *args)
        if name in ('exp', 'log', 'pow', 'sqrt', 'fabs'):
            return {'exp': fexp, 'log': fln, 'pow': fpow, 'sqrt': fsqrt, 'fabs': fabs_}[name](*args)
        if name in ('fmax', 'fmin'): return HELP.minmax(1 if name == 'fmax' else 0, *args)
        if name == 'memcmp' or name == 'bcmp': raise Unsupported(name)
        raise Unsupported("call of external function " + name)

    def run(self, f, args, S):
        code = self.jit.get(f)
        if code is None:
            code = self.jit[f] = Compiler(self, f).compile()
        nm = f.name
        self.called[nm] = self.called.get(nm, 0) + 1
        self.stack.append(nm)
        if len(self.stack) > 200: raise Unsupported("call depth")
        first_obj = self.next_obj; splitting = self.splitting
        R = [None] * code.nregs
        for i, a in enumerate(args): R[1 + i] = a
        try:
            ret = self._drive(code, R, S)
        finally:
            self.stack.pop()
            if self.splitting != splitting: self.splitting = splitting; dag.FACTOR = splitting > 0
        objs = self.objs; d = ret[1].mem.d
        for i in range(first_obj, self.next_obj):
            o = objs.get(i)
            if o is not None and o.kind == 'stack':
                del objs[i]
                if o.size <= 32:
                    b = i << OBJ
                    for k in range(0, o.size, 4):
                        d.pop(b + k, None)
        return ret

    def _drive(self, code, R, S):
        blocks = code.blocks; pos = code.pos; loop_end = code.loop_end; scope = code.scope
        cur = 0
        # fast path: single state
        pend = []      # heap of (outermost loop, signature, key, block)
        parked = {}    # the same -> list of (R,S)
        exits = []
        up = set()     # cells the callers' loops may have to split
        sc = []        # cells executed value by value: (loop head position, loop end, address)
        active = (R, S, cur)
        steps = 0
        park = self._park
        while True:
            if active is not None:
                R, S, cur = active
                active = None
                if self.wide and scope[cur] is None: up |= self.wide; self.wide.clear()
                if (sc or self.wide) and scope[cur] is not None and self._split(code, pend, parked, sc, cur, R, S): pass
                else:
                    try:
                        nxt = blocks[cur](R, S)
                    except Dead:
                        S.release(); nxt = DEADMARK
                    steps += 1
                    self.steps += 1
                    if self.steps > self.max_steps: raise Unbounded("step budget exhausted in " + code.f.name)
                    if not self.steps & 1023 and time.time() > self.deadline: raise Unbounded("no end of the execution found in " + code.f.name)
                    if nxt is DEADMARK:
                        pass
                    elif nxt.__class__ is int:
                        if nxt < 0:
                            exits.append((R[0], S))
                        elif not pend:
                            active = (R, S, nxt); continue
                        else:
                            park(code, pend, parked, sc, cur, nxt, R, S)
                    else:
                        # symbolic branch: list of (cond, target, edgefn)
                        todo = []
                        for c, t, mv in nxt:
                            k = S.decide(c)
                            if k == 0: continue
                            todo.append((c, t, mv))
                            if k == 1: todo = [(1, t, mv)]; break
                        if not todo: S.release()
                        elif len(todo) == 1:
                            c, t, mv = todo[0]
                            if mv: mv(R, S)
                            if not pend: active = (R, S, t); continue
                            park(code, pend, parked, sc, cur, t, R, S)
                        else:
                            self.forks += len(todo) - 1
                            for i, (c, t, mv) in enumerate(todo):
                                last = i == len(todo) - 1
                                S2 = S if last else S.fork()
                                R2 = R if last else R[:]
                                try:
                                    S2.assume(c)
                                except Dead:
                                    S2.release(); continue
                                if mv: mv(R2, S2)
                                park(code, pend, parked, sc, cur, t, R2, S2)
            # pick the next
            if not pend: break
            k = heapq.heappop(pend)
            g, sig, key, b = k
            lst = parked.pop(k)
            if key != pos[b]:
                # a loop's back edge: now proceed to the head
                k = (g, sig, pos[b], b)
                if k in parked:
                    lst += parked.pop(k); pend.remove(k); heapq.heapify(pend)
            if len(lst) > 1:
                into = up if scope[b] is None else None if any(lo <= pos[b] <= hi for lo, hi, a in sc) else self.wide
                x = self.join(code, b, lst, into)
                if x is None: continue
                R, S = x
            else: R, S = lst[0]
            active = (R, S, b)
        if not exits: raise Dead()
        x = self.join(code, None, [([ret], s) for ret, s in exits], self.wide)
        if x is None: raise Dead()
        R, S0 = x
        self.wide |= up     # for the loops of the callers
        return R[0], S0

    def join(self, code, b, lst, into):
        """the executions that meet, as one; None when none of them is possible"""
        R, S = lst[0]
        if len(lst) > 1:
            self.cand.clear(); cur = lst[0]
            for nx in lst[1:]:
                if cur is None: cur = nx; continue
                try: cur = self.merge(code, b, cur[0], cur[1], nx[0], nx[1])
                except Dead: cur = None
            if cur is None: return None
            R, S = cur
            if into is not None and len(lst) >= SPLIT - 1: into |= self.cand
        return R, S

    def _sig(self, code, sc, dst, S):
        p = code.pos[dst]; out = []
        for lo, hi, a in sc:
            if lo <= p <= hi:
                c = S.raw(a)
                out.append(c[1] if c is not None and c[1].__class__ is int else -1)
            else: out.append(M64)
        return tuple(out)

    def _split(self, code, pend, parked, sc, cur, R, S):
        """inside a loop, a cell that came out of a join of many executions with many values (the cursor of a
        loop over a filtered sequence) is executed value by value: one state each, merged again value by value"""
        if self.wide:
            new = []; h = code.scope[cur]
            # also what was written since the join under the same conditions (the value the cursor delivered)
            conds = set()
            for a in self.wide:
                c = S.raw(a) if (a >> OBJ) in self.objs else None
                if c is not None and c[1].__class__ is SymInt: conds.update(c[1].vals.values())
            seen = set(self.wide); m = S.mem
            while m is not None:
                for a, c in m.d.items():
                    if c[1].__class__ is SymInt and len(c[1].vals) >= SPLIT and a.__class__ is int and sum(x in conds for x in c[1].vals.values()) >= SPLIT - 1:
                        o = self.objs.get(a >> OBJ)
                        if o is not None and o.kind == 'stack': seen.add(a)
                m = m.parent
            for a in seen:
                c = S.raw(a) if (a >> OBJ) in self.objs else None
                if c is None or c[1].__class__ is not SymInt: continue
                v = S.prune(c[1]); e = (code.pos[h], code.loop_end[h], a)
                if v.__class__ is SymInt and len(v.vals) >= SPLIT and e not in sc: new.append((-len(v.vals), e))
            self.wide.clear()
            if new and len(sc) < 12:
                if not sc: self.splitting += 1; dag.FACTOR = True
                sc += [e for _, e in sorted(new)]; sc.sort(key=lambda x: x[0])
                old = [(k, x) for k in sorted(pend) for x in parked[k]]
                pend.clear(); parked.clear()
                for (g, _, key, b), (R2, S2) in old:
                    k = (g, self._sig(code, sc, b, S2), key, b)
                    if k in parked: parked[k].append((R2, S2))
                    else: parked[k] = [(R2, S2)]; heapq.heappush(pend, k)
        p = code.pos[cur]
        for lo, hi, a in sc:
            if not lo <= p <= hi or (a >> OBJ) not in self.objs: continue
            c = S.raw(a)
            if c is None or c[1].__class__ is not SymInt: continue
            v = S.prune(c[1])
            if v.__class__ is not SymInt:
                S.mem.d[a] = (c[0], v); continue
            todo = list(v.vals.items())
            rest = band(*[bnot(cc) for x, cc in todo])     # where the cell holds nothing
            if S.decide(rest) != 0 and S.possible(rest): todo[-1] = (todo[-1][0], bor(todo[-1][1], rest))
            self.forks += len(todo) - 1
            for i, (x, cc) in enumerate(todo):
                last = i == len(todo) - 1
                S2 = S if last else S.fork()
                try:
                    S2.assume(cc)
                    if not S2.possible(1): raise Dead()
                except Dead: S2.release(); continue
                S2.mem.d[a] = (c[0], x)
                self._park(code, pend, parked, sc, None, cur, R if last else R[:], S2)
            return True
        return False

    def _park(self, code, pend, parked, sc, src, dst, R, S):
        key = code.pos[dst]
        if src is not None and key <= code.pos[src]:
            le = code.loop_end.get(dst)
            if le is not None: key = le + 0.9 - 0.8 * code.pos[dst] / len(code.pos)  # inner loops first
        k = (code.group[dst], self._sig(code, sc, dst, S) if sc else (), key, dst)
        if k in parked:
            parked[k].append((R, S))
        else:
            parked[k] = [(R, S)]; heapq.heappush(pend, k)

    def merge(self, code, b, Ra, Sa, Rb, Sb):
        self.merges += 1
        common = Sa.pc & Sb.pc
        ca = band(*(Sa.pc - common)); cb = band(*(Sb.pc - common))
        g = bor(ca, cb)
        # choose the simpler discriminator
        if ca.__class__ is int and ca == 1:
            # a's path condition is implied by the other's: use the other's negation
            c = bnot(cb)
        else:
            c = ca
            if self.splitting and ca.__class__ is not int and ca.op == 'and' and cb.__class__ is not int:
                # one literal that tells the two apart is enough
                B = dag.conj(cb)
                ls = [x for x in ca.args if dag.neg_of(x) in B]
                if ls: c = min(ls, key=lambda x: x.id)
            if self.splitting and c.__class__ is not int and self.bdd.weight(c) > 8:
                c = self.bdd.restrict(c, band(bor(ca, cb), *common))
        pcs = set(common)
        if self.splitting and g.__class__ is not int: g = self.bdd.simplify(g)
        if self.splitting and common:
            h = band(g, *common)
            if h.__class__ is not int and any(x.op == 'not' and x.args[0].op == 'and' for x in dag.conj(h)):
                h2 = self.bdd.simplify(h)
                if h2 is not h: g = h2; pcs = set()
            elif h.__class__ is int: g = h
        if g.__class__ is int:
            if not g: raise Dead()
        elif g.op == 'and': pcs |= g.args
        else: pcs.add(g)
        # memory
        chain = []
        m = Sa.mem
        while m is not None: chain.append(m); m = m.parent
        ids = {id(x): i for i, x in enumerate(chain)}
        m = Sb.mem; chb = []
        while id(m) not in ids: chb.append(m); m = m.parent
        anc = m
        cha = chain[:ids[id(anc)]]
        A = {}
        for x in reversed(cha): A.update(x.d)
        B = {}
        for x in reversed(chb): B.update(x.d)
        out = {}
        objs = self.objs
        get = anc.get
        for a in A.keys() | B.keys():
            if a.__class__ is int and (a >> OBJ) not in objs: continue
            va = A.get(a); vb = B.get(a)
            if va is None: va = get(a)
            elif vb is None: vb = get(a)
            if va is None or vb is None:
                w = va if va is not None else vb
                o = self.objs.get(a >> OBJ) if a.__class__ is int else None
                if a.__class__ is not int:
                    # ghost: missing on one side means 0
                    if w[1].__class__ in (FNode, float): out[a] = w
                    else:
                        x = va[1] if va else 0; y = vb[1] if vb else 0
                        out[a] = (1, merge_val(c, x, y))
                    continue
                if o is not None and o.blob is not None:
                    n = w[0]
                    if n == 0: out[a] = w; continue
                    base = int.from_bytes(o.blob[a & OMASK:(a & OMASK) + n], 'little')
                    x = va[1] if va else base; y = vb[1] if vb else base
                    out[a] = (n, merge_val(c, x, y)); continue
                out[a] = w; continue   # uninitialised on the other path
            if va[0] != vb[0]:
                if va[0] == 0 and vb[0] == 0: continue
                if va[0] == 0: out[a] = vb; continue
                if vb[0] == 0: out[a] = va; continue
                out[a] = (max(va[0], vb[0]), CONFLICT); continue
            if va[1] is vb[1] or same(va[1], vb[1]): out[a] = va
            else:
                w = merge_val(c, va[1], vb[1]); out[a] = (va[0], w)
                if w.__class__ is SymInt and len(w.vals) >= SPLIT and a.__class__ is int: self.cand.add(a)
        # liveness of memory nodes
        def drop(tip):
            m = tip
            while m is not anc and m is not None:
                p = m.parent
                p.live -= 1
                if p is anc: break
                if p.live > 0: break
                m = p
        drop(Sa.mem); drop(Sb.mem)
        if anc.live <= 0:
            anc.d.update(out); mem = anc
        else:
            mem = Mem(anc); mem.d = out; anc.live += 1
        S = State(self, mem, frozenset(pcs))
        # registers
        R = list(Ra)
        idxs = range(len(Ra)) if b is None else code.livein[b]
        for i in idxs:
            x, y = Ra[i], Rb[i]
            if x is y: continue
            if x is None or y is None: R[i] = x if y is None else y; continue
            R[i] = merge_val(c, x, y)
        return R, S

DEADMARK = object()

def demangle_tail(n):
    m = re.findall(r'\d+([a-z_]+)', n)
    return m[-1] if m else n

class Code:
    pass

class Compiler:
    """Compile one IR function to a list of Python block functions."""
    def __init__(self, E, f):
        self.E = E; self.f = f

    def compile(self):
        f = self.f; f.prepare()
        self.consts = []
        defs = {}; uses = {}
        for p in f.params: defs[p] = -1
        parsed = []
        for bi, (lab, ins) in enumerate(f.blocks):
            for s in ins:
                m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = ', s)
                d = m.group(1) if m else None
                body = s[m.end():] if m else s
                if d: defs[d] = bi
                for u in re.findall(r'%(?:"[^"]+"|[\w.$-]+)', body):
                    if body.startswith('phi'): uses.setdefault(u, set()).add(-2)
                    uses.setdefault(u, set()).add(bi)
        phis = {m.group(1) for lab, ins in f.blocks for m in [re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = phi ', q) for q in ins] if m}
        self.cross = {}
        n = 1
        for p in f.params: self.cross[p] = n; n += 1
        for d, bi in defs.items():
            if d in self.cross: continue
            us = uses.get(d, set())
            isphi = d in phis
            if isphi or -2 in us or any(u != bi for u in us): self.cross[d] = n; n += 1
        self.nregs = n
        # liveness over cross registers
        gen = []; kill = []
        for bi, (lab, ins) in enumerate(f.blocks):
            g = set(); k = set()
            for s in ins:
                m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = ', s)
                body = s[m.end():] if m else s
                if body.startswith('phi'):
                    # phi targets are written on the incoming edge
                    g.add(self.cross[m.group(1)]); continue
                for u in re.findall(r'%(?:"[^"]+"|[\w.$-]+)', body):
                    c = self.cross.get(u)
                    if c is not None and c not in k: g.add(c)
                if m and m.group(1) in self.cross: k.add(self.cross[m.group(1)])
            gen.append(g); kill.append(k)
        live = [set(g) for g in gen]
        # values used by phis in successors are live out of the predecessor
        phiuse = [set() for _ in f.blocks]
        for bi, (lab, ins) in enumerate(f.blocks):
            for s in ins:
                m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = phi ', s)
                if m:
                    for v, p in re.findall(r'\[ ([^,]+), %("[^"]+"|[\w.$-]+) \]', s):
                        if v in self.cross: phiuse[f.bidx[p.strip('"')]].add(self.cross[v])
        ch = True
        phidefs = [set(self.cross[re.match(r'(%(?:"[^"]+"|[\w.$-]+))', s).group(1)] for s in ins if re.match(r'%\S+ = phi ', s)) for lab, ins in f.blocks]
        while ch:
            ch = False
            for bi in reversed(range(len(f.blocks))):
                o = set(phiuse[bi])
                for s in f.succ[bi]: o |= live[s] - phidefs[s]
                nl = gen[bi] | (o - kill[bi])
                if nl != live[bi]: live[bi] = nl; ch = True
        src = []
        ns = {'fadd': fadd, 'fsub': fsub, 'fmul': fmul, 'fdiv': fdiv, 'fneg': fneg, 'fabs_': fabs_, 'fsqrt': fsqrt,
              'fexp': fexp, 'fln': fln, 'fpow': fpow, 'fpowi': fpowi, 'fcmp': fcmp, 'fite': fite, 'Dead': Dead,
              'imap': imap, 'imap2': imap2, 'ibool': ibool, 'E': self.E, 'MOD': f.mod, 'FNode': FNode, 'BNode': BNode,
              'SymInt': SymInt, 'merge_val': merge_val, 'bnot': bnot, 'band': band, 'bor': bor, 'icmp_': icmp_, 'DEAD': DEADMARK,
              'olt': olt, 'ole': ole, 'oeq': oeq, 'H': HELP, 'K': self.consts, 'float': float, 'Unsupported': Unsupported, 'sw_': sw_, 'ipairs': ipairs}
        self.edge_fns = []
        for bi in range(len(f.blocks)):
            src.append(self.block(bi))
        code = Code(); code.f = f
        text = "\n".join(self.edge_fns) + "\n" + "\n".join(src)
        exec(compile(text, "<%s>" % f.name[-60:], 'exec'), ns)
        code.blocks = [ns['b%d' % i] for i in range(len(f.blocks))]
        code.nregs = self.nregs
        code.pos, code.loop_end = f.order
        # innermost and outermost loop of every block
        code.scope = [None] * len(f.blocks); code.group = list(code.pos[i] for i in range(len(f.blocks)))
        for h, le in sorted(code.loop_end.items(), key=lambda x: code.pos[x[0]]):
            for i in range(len(f.blocks)):
                if code.pos[h] <= code.pos[i] <= le:
                    if code.scope[i] is None: code.group[i] = code.pos[h]
                    code.scope[i] = h
        code.livein = [sorted(x) for x in live]
        code.text = text
        return code

    def edge(self, src, dst):
        """code lines moving phi values for edge src->dst"""
        slab = self.f.blocks[src][0]
        out = []
        for s in self.f.blocks[dst][1]:
            m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = phi (.*)$', s)
            if not m: break
            rest = m.group(2); e = _ty_end(rest, 0); t = rest[:e]
            for v, p in re.findall(r'\[ ([^,]+), %("[^"]+"|[\w.$-]+) \]', rest[e:]):
                if p.strip('"') == slab:
                    out.append((self.cross[m.group(1)], self.val(t, v.strip(), {})))
                    break
        if not out: return []
        return ["%s = %s" % (", ".join("R[%d]" % i for i, _ in out), ", ".join(v for _, v in out))]

    def val(self, t, v, loc):
        v = v.strip()
        if v[0] == '%':
            if v in loc: return loc[v]
            c = self.cross.get(v)
            if c is None: raise Unsupported("operand " + v)
            return "R[%d]" % c
        if v == 'true': return '1'
        if v == 'false': return '0'
        if v == 'null': return '0'
        if v in ('undef', 'poison'):
            return {'double': 'float("nan")'}.get(t, '0') if t[0] not in '{[' else "(" + ",".join("0" for _ in split_top(t[1:-1])) + ",)"
        if v == 'zeroinitializer': return '0' if t[0] not in '{[' else "(" + ",".join("0" for _ in split_top(t[1:-1])) + ",)"
        if v[0] == '@':
            return str(self.E.global_addr(self.f.mod, v[1:].strip('"')))
        if t in ('double', 'float'):
            self.consts.append(parse_fp(v)); return "K[%d]" % (len(self.consts) - 1)
        if re.match(r'-?\d+$', v):
            w = 8 * ty_size(t) if t != 'i1' else 1
            if t == 'ptr': w = 64
            m = re.match(r'i(\d+)$', t)
            if m: w = int(m.group(1))
            return str(int(v) & ((1 << w) - 1))
        m = re.match(r'getelementptr (?:inbounds )?(?:nuw )?(?:nusw )?\((.*)\)$', v)
        if m:
            parts = split_top(m.group(1))
            b = self.val('ptr', parts[1].split(None, 1)[1], loc)
            off = self.gep_off(parts[0], parts[2:], loc)
            return "(%s + %s)" % (b, off)
        m = re.match(r'inttoptr \(i64 (-?\d+) to ptr\)$', v)
        if m: return m.group(1)
        m = re.match(r'\{(.*)\}$', v)
        if m:
            ts = []
            for x in split_top(m.group(1)):
                e = _ty_end(x, 0); ts.append(self.val(x[:e], x[e:].strip(), loc))
            return "(" + ",".join(ts) + ",)"
        raise Unsupported("operand %s %s" % (t, v))

    def gep_off(self, t, idx, loc):
        terms = []; const = 0; first = True
        dyn = []
        for ix in idx:
            it, iv = ix.split(None, 1)
            v = self.val(it, iv, loc)
            if first: sz = ty_size(t); first = False
            else:
                m = re.match(r'\[(\d+) x (.+)\]$', t)
                if m: t = m.group(2); sz = ty_size(t)
                else:
                    fields = split_top(t.strip('<>')[1:-1]); k = int(iv)
                    off = 0
                    for q in range(k + 1):
                        a = ty_align(fields[q]); off = (off + a - 1) // a * a
                        if q < k: off += ty_size(fields[q])
                    const += off; t = fields[k]; continue
            if v.lstrip('-').isdigit():
                n = int(v)
                if n >= 1 << 63: n -= 1 << 64
                const += n * sz
            else: dyn.append((v, sz, it))
        if not dyn: return str(const)
        s = str(const)
        for v, sz, it in dyn:
            s = "H.addi(%s, %s, %d, %d)" % (s, v, sz, 64 if it == 'i64' else int(it[1:]))
        return s

    def block(self, bi):
        lab, ins = self.f.blocks[bi]
        loc = {}
        L = ["def b%d(R, S):" % bi]
        k = 0
        for s in ins:
            m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = (.*)$', s)
            d, body = (m.group(1), m.group(2)) if m else (None, s)
            try:
                r = self.instr(bi, d, body, loc, L)
            except Unsupported as e:
                L.append(" raise Unsupported(%r)" % (str(e) + " in: " + s[:120]))
                r = None
                if d is not None: r = '0'
            except (ValueError, IndexError, AttributeError, KeyError) as e:
                L.append(" raise Unsupported(%r)" % ("cannot parse: " + s[:160]))
                r = '0' if d is not None else None
            if d is not None and r is not None:
                nm = "v%d" % k; k += 1
                L.append(" %s = %s" % (nm, r)); loc[d] = nm
                if d in self.cross: L.append(" R[%d] = %s" % (self.cross[d], nm))
        return "\n".join(L)

    def ops2(self, rest, loc):
        e = _ty_end(rest, 0); t = rest[:e]
        a, b = split_top(rest[e:])
        return t, self.val(t, a, loc), self.val(t, b, loc)

    def instr(self, bi, d, body, loc, L):
        op, _, rest = body.partition(' ')
        rest = rest.strip()
        if op in ('tail', 'musttail', 'notail'):
            op, _, rest = rest.partition(' '); rest = rest.strip()
        if op == 'getelementptr':
            rest = re.sub(r'^((inbounds|nuw|nusw) )*', '', rest)
            parts = split_top(rest)
            b = self.val('ptr', parts[1].split(None, 1)[1], loc)
            off = self.gep_off(parts[0], parts[2:], loc)
            if b.startswith('R[') or b.startswith('v') or True:
                if off.lstrip('-').isdigit(): return "H.addc(%s, %s)" % (b, off)
                return "H.add(%s, %s)" % (b, off)
        if op == 'alloca':
            parts = split_top(rest)
            return "E.new_obj(%d, 'stack', %r)" % (ty_size(parts[0]), d)
        if op == 'store':
            if rest.startswith('volatile '): rest = rest[9:]
            parts = split_top(rest)
            e = _ty_end(parts[0], 0); t = parts[0][:e]; v = self.val(t, parts[0][e:].strip(), loc)
            p = self.val('ptr', parts[1].split(None, 1)[1], loc)
            if t[0] in '{[<':
                fs = split_top(t.strip('<>')[1:-1]) if t[0] in '{<' else None
                if fs is None: raise Unsupported("store of array")
                off = 0
                for q, ft in enumerate(fs):
                    a = ty_align(ft); off = (off + a - 1) // a * a
                    L.append(" S.store(H.addc(%s, %d), %d, (%s)[%d])" % (p, off, ty_size(ft), v, q)); off += ty_size(ft)
                return None
            L.append(" S.store(%s, %d, %s)" % (p, ty_size(t), v))
            return None
        if op == 'load':
            if rest.startswith('volatile '): rest = rest[9:]
            parts = split_top(rest); t = parts[0]
            p = self.val('ptr', parts[1].split(None, 1)[1], loc)
            if t[0] in '{<':
                fs = split_top(t.strip('<>')[1:-1]); off = 0; els = []
                for ft in fs:
                    a = ty_align(ft); off = (off + a - 1) // a * a
                    els.append("S.load(H.addc(%s, %d), %d, %s)" % (p, off, ty_size(ft), ft == 'double')); off += ty_size(ft)
                return "(" + ",".join(els) + ",)"
            if t == 'float': raise Unsupported("f32")
            return "S.load(%s, %d, %s)" % (p, ty_size(t), t == 'double')
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            rest = re.sub(r'^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )+', '', rest)
            t, a, b = self.ops2(rest, loc)
            if t != 'double': raise Unsupported(t + " arithmetic")
            return "%s(%s, %s)" % (op, a, b)
        if op == 'frem': raise Unsupported("frem")
        if op == 'fneg':
            t, v = rest.split(None, 1)
            return "fneg(%s)" % self.val(t, v, loc)
        if op == 'fcmp':
            rest = re.sub(r'^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )+', '', rest)
            pred, r2 = rest.split(None, 1)
            if pred == 'true': return '1'
            if pred == 'false': return '0'
            t, a, b = self.ops2(r2, loc)
            return "fcmp(%r, %s, %s)" % (pred, a, b)
        if op == 'icmp':
            rest = re.sub(r'^samesign ', '', rest)
            pred, r2 = rest.split(None, 1)
            t, a, b = self.ops2(r2, loc)
            w = 64 if t == 'ptr' else int(t[1:])
            return "icmp_(%r, %s, %s, %d)" % (pred, a, b, w)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            rest = re.sub(r'^((nuw|nsw|exact|disjoint) )+', '', rest)
            t, a, b = self.ops2(rest, loc)
            w = int(t[1:])
            return "H.%s_(%s, %s, %d)" % (op, a, b, w)
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
            rest = re.sub(r'^((nuw|nsw|nneg) )+', '', rest)
            m = re.match(r'(\S+) (.+) to (\S+)$', rest)
            t, v, t2 = m.groups()
            v = self.val(t, v, loc)
            if op == 'trunc': return "H.trunc(%s, %d)" % (v, int(t2[1:]))
            if op == 'zext': return "H.zext(%s, %d)" % (v, int(t[1:]))
            if op == 'sext': return "H.sext(%s, %d, %d)" % (v, int(t[1:]), int(t2[1:]))
            if op in ('ptrtoint', 'inttoptr'): return v
            if op == 'bitcast': return "H.bitcast(%s, %r, %r)" % (v, t, t2)
            if op == 'uitofp': return "H.itofp(%s, 0, %d)" % (v, int(t[1:]))
            if op == 'sitofp': return "H.itofp(%s, 1, %d)" % (v, int(t[1:]))
            raise Unsupported(op)
        if op == 'select':
            rest = re.sub(r'^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )+', '', rest)
            a, b, c = split_top(rest)
            cv = self.val('i1', a.split(None, 1)[1], loc)
            e = _ty_end(b, 0); t = b[:e]
            return "H.select(S, %s, %s, %s)" % (cv, self.val(t, b[e:].strip(), loc), self.val(t, c[_ty_end(c, 0):].strip(), loc))
        if op == 'extractvalue':
            e = _ty_end(rest, 0); parts = split_top(rest[e:])
            v = self.val(rest[:e], parts[0], loc)
            for ix in parts[1:]: v = "%s[%s]" % (v, ix)
            return v
        if op == 'insertvalue':
            e = _ty_end(rest, 0); t = rest[:e]
            parts = split_top(rest[e:])
            v = self.val(t, parts[0], loc)
            e2 = _ty_end(parts[1], 0)
            x = self.val(parts[1][:e2], parts[1][e2:].strip(), loc)
            if len(parts) != 3: raise Unsupported("nested insertvalue")
            return "H.insert(%s, %s, %s)" % (v, x, parts[2])
        if op == 'freeze':
            t, v = rest.split(None, 1); return self.val(t, v, loc)
        if op == 'phi': 
            loc[d] = "R[%d]" % self.cross[d]
            return None
        if op == 'br':
            m = re.match(r'label %(.+)$', rest)
            if m:
                t = self.f.bidx[m.group(1).strip('"')]
                for l in self.edge(bi, t): L.append(" " + l)
                L.append(" return %d" % t); return None
            m = re.match(r'i1 (.+), label %("[^"]+"|[\w.$-]+), label %("[^"]+"|[\w.$-]+)$', rest)
            c = self.val('i1', m.group(1), loc)
            t1 = self.f.bidx[m.group(2).strip('"')]; t2 = self.f.bidx[m.group(3).strip('"')]
            L.append(" c = %s" % c)
            L.append(" if c.__class__ is not int: c = ibool(c)")
            e1 = self.edge(bi, t1); e2 = self.edge(bi, t2)
            f1 = self.mkedge(bi, t1, e1); f2 = self.mkedge(bi, t2, e2)
            L.append(" if c.__class__ is int:")
            L.append("  if c:")
            for l in e1: L.append("   " + l)
            L.append("   return %d" % t1)
            for l in e2: L.append("  " + l)
            L.append("  return %d" % t2)
            L.append(" return [(c, %d, %s), (bnot(c), %d, %s)]" % (t1, f1, t2, f2))
            return None
        if op == 'switch':
            m = re.match(r'(\S+) (.+), label %("[^"]+"|[\w.$-]+) \[(.*)\]$', rest)
            t, v, dflt, cases = m.groups()
            v = self.val(t, v, loc)
            cs = re.findall(t + r' (-?\d+|true|false), label %("[^"]+"|[\w.$-]+)', cases)
            w = int(t[1:])
            tbl = []
            for cv, lb in cs:
                n = {'true': 1, 'false': 0}.get(cv); n = int(cv) if n is None else n
                tb = self.f.bidx[lb.strip('"')]
                tbl.append("(%d, %d, %s)" % (n & ((1 << w) - 1), tb, self.mkedge(bi, tb, self.edge(bi, tb))))
            db = self.f.bidx[dflt.strip('"')]
            L.append(" return sw_(%s, [%s], %d, %s, R, S)" % (v, ", ".join(tbl), db, self.mkedge(bi, db, self.edge(bi, db))))
            return None
        if op == 'ret':
            if rest == 'void': L.append(" R[0] = None")
            else:
                e = _ty_end(rest, 0)
                L.append(" R[0] = %s" % self.val(rest[:e], rest[e:].strip(), loc))
            L.append(" return -1"); return None
        if op == 'unreachable':
            L.append(" E.report(S, 'unreachable executed')"); L.append(" return DEAD"); return None
        if op in ('call', 'invoke'):
            return self.callins(bi, d, body, loc, L)
        raise Unsupported("instruction " + op)

    def mkedge(self, bi, t, lines):
        if not lines: return 'None'
        nm = "e%d_%d" % (bi, t)
        txt = "def %s(R, S):\n" % nm + "\n".join(" " + l for l in lines)
        if txt not in self.edge_fns: self.edge_fns.append(txt)
        return nm

    def callins(self, bi, d, body, loc, L):
        m = re.search(r'@("[^"]+"|[\w.$]+)\(', body)
        if body.startswith('invoke'): raise Unsupported("invoke")
        if not m: raise Unsupported("indirect call")
        name = m.group(1).strip('"')
        # the first @ must be the callee
        pre = body[:m.start()]
        if '(' in re.sub(r'(range|captures|dereferenceable|dereferenceable_or_null|align|initializes|nofpclass)\((?:[^()]|\([^)]*\))*\)', '', pre): raise Unsupported("call form")
        i = m.end(); dd = 1; j = i
        while dd:
            if body[j] in '([{': dd += 1
            elif body[j] in ')]}': dd -= 1
            j += 1
        args = []
        if not name.startswith('llvm.'):
            for a in split_top(body[i:j-1]):
                a = _attr.sub('', a).strip()
                e = _ty_end(a, 0)
                args.append(self.val(a[:e], a[e:].strip(), loc))
        else:
            for a in split_top(body[i:j-1]):
                if a.startswith('metadata'): args.append('0'); continue
                a = _attr.sub('', a).strip()
                e = _ty_end(a, 0); args.append(self.val(a[:e], a[e:].strip(), loc))
        if name.startswith('llvm.'):
            return self.intrinsic(name, args, L, d)
        if self.E.find_func(self.f.mod, name) is None and name not in self.E.hooks:
            tmp = "E.external(%r, (%s), S)" % (name, "".join(a + "," for a in args))
            if name not in self.E.latehooks:
                if d is None: L.append(" " + tmp); return None
                return tmp
        L.append(" r_, s_ = E.call2(MOD, %r, (%s), S)" % (name, "".join(a + "," for a in args)))
        L.append(" if s_ is not S: S.mem = s_.mem; S.pc = s_.pc")
        return "r_" if d is not None else None

    def intrinsic(self, name, a, L, d):
        if name in ('llvm.log.f64',): return "fln(%s)" % a[0]
        if name == 'llvm.exp.f64': return "fexp(%s)" % a[0]
        if name == 'llvm.pow.f64': return "fpow(%s, %s)" % (a[0], a[1])
        if name == 'llvm.powi.f64.i32': return "H.powi(%s, %s)" % (a[0], a[1])
        if name == 'llvm.sqrt.f64': return "fsqrt(%s)" % a[0]
        if name == 'llvm.fabs.f64': return "fabs_(%s)" % a[0]
        if name in ('llvm.fma.f64', 'llvm.fmuladd.f64'): return "H.fma(%s, %s, %s)" % tuple(a[:3])
        if name in ('llvm.maxnum.f64', 'llvm.minnum.f64', 'llvm.maximumnum.f64', 'llvm.minimumnum.f64'):
            return "H.minmax(%d, %s, %s)" % (1 if 'max' in name else 0, a[0], a[1])
        if name == 'llvm.copysign.f64': return "dag.fun('copysign', %s, %s)" % (a[0], a[1])
        m = re.match(r'llvm\.(\w+)\.f64$', name)
        if m and m.group(1) in dag.FUN1: return "dag.fun(%r, %s)" % (m.group(1), a[0])
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            L.append(" S.memcpy(%s, %s, %s)" % (a[0], a[1], a[2])); return None
        if name.startswith('llvm.memset'):
            L.append(" S.memset(%s, %s, %s)" % (a[0], a[1], a[2])); return None
        m = re.match(r'llvm\.([su])(add|sub|mul)\.with\.overflow\.i(\d+)$', name)
        if m: return "H.ovf(%r, %r, %s, %s, %d)" % (m.group(1), m.group(2), a[0], a[1], int(m.group(3)))
        if name.startswith('llvm.expect'): return a[0]
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.experimental.noalias'): return '0' if d else None
        if name == 'llvm.assume': return None
        m = re.match(r'llvm\.([us])(max|min)\.i(\d+)$', name)
        if m: return "H.iminmax(%r, %r, %s, %s, %d)" % (m.group(1), m.group(2), a[0], a[1], int(m.group(3)))
        m = re.match(r'llvm\.([us])(add|sub)\.sat\.i(\d+)$', name)
        if m: return "H.sat(%r, %r, %s, %s, %d)" % (m.group(1), m.group(2), a[0], a[1], int(m.group(3)))
        if name.startswith('llvm.abs.i'): return "H.iabs(%s, %d)" % (a[0], int(name.rsplit('i', 1)[1]))
        if name == 'llvm.trap': 
            L.append(" E.report(S, 'trap')"); L.append(" return DEAD"); return None
        raise Unsupported("intrinsic " + name)

Engine.latehooks = set()
def _call2(self, mod, name, args, S):
    h = self.hooks.get(name)
    if h is not None:
        r = h(self, S, args)
        return r, S
    f = self.find_func(mod, name)
    if f is None: return self.external(name, args, S), S
    return self.run(f, args, S)
Engine.call2 = _call2

def sgn(x, w): return x - (1 << w) if x >> (w - 1) else x
def _icmp(pred, a, b, w):
    if pred == 'eq': return 1 if a == b else 0
    if pred == 'ne': return 1 if a != b else 0
    if pred[0] == 's': a = sgn(a, w); b = sgn(b, w)
    p = pred[1:]
    return 1 if (a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b) else 0
def icmp_(pred, a, b, w):
    if a.__class__ is int and b.__class__ is int: return _icmp(pred, a, b, w)
    if a.__class__ is FNode or b.__class__ is FNode: raise Unsupported("integer comparison of float bits")
    r = imap2(lambda x, y: _icmp(pred, x, y, w), a, b)
    return ibool(r) if r.__class__ is not int else r

def sw_(v, table, dflt, dmv, R, S):
    if v.__class__ is int:
        for n, t, mv in table:
            if n == v:
                if mv: mv(R, S)
                return t
        if dmv: dmv(R, S)
        return dflt
    arms = {}
    for x, c in ipairs(v):
        for n, t, mv in table:
            if n == x: break
        else: t, mv = dflt, dmv
        if (t, mv) in arms: arms[(t, mv)] = bor(arms[(t, mv)], c)
        else: arms[(t, mv)] = c
    return [(c, t, mv) for (t, mv), c in arms.items()]

class HELP:
    @staticmethod
    def addc(b, o):
        if b.__class__ is int: return (b + o) & 0xffffffffffffffff
        return imap(lambda x: x + o, b)
    @staticmethod
    def add(b, o):
        if b.__class__ is int and o.__class__ is int: return (b + o) & 0xffffffffffffffff
        return imap2(lambda x, y: (x + y) & 0xffffffffffffffff, b, o)
    @staticmethod
    def addi(c, v, sz, w):
        if c.__class__ is int and v.__class__ is int: return c + sgn(v, w) * sz
        return imap2(lambda x, y: x + sgn(y, w) * sz, c, v)
    @staticmethod
    def trunc(v, w):
        if v.__class__ is int: return v & ((1 << w) - 1)
        if v.__class__ is FNode: raise Unsupported("trunc of float bits")
        if v.__class__ is Wide:
            if w == 64: return v.lo
            raise Unsupported("trunc of 16 bytes")
        if w == 1: return ibool(v)
        return imap(lambda x: x & ((1 << w) - 1), v)
    @staticmethod
    def zext(v, w): return v
    @staticmethod
    def sext(v, w, w2):
        return imap(lambda x: sgn(x, w) & ((1 << w2) - 1), v)
    @staticmethod
    def bitcast(v, t, t2):
        if t == t2: return v
        if t == 'double' and t2 == 'i64':
            return bits(v) if v.__class__ is float else v
        if t == 'i64' and t2 == 'double':
            return from_bits(v) if v.__class__ is int else v
        return v
    @staticmethod
    def itofp(v, s, w):
        f = (lambda x: float(sgn(x, w))) if s else float
        if v.__class__ is int: return f(v)
        ps = ipairs(v); r = f(ps[-1][0])
        for x, c in reversed(ps[:-1]): r = fite(c, f(x), r)
        return r
    @staticmethod
    def select(S, c, a, b):
        if c.__class__ is SymInt: c = ibool(c)
        if c.__class__ is int: return a if c else b
        k = S.known(c)
        if k is not None: return a if k else b
        return merge_val(c, a, b)
    @staticmethod
    def insert(v, x, i):
        l = list(v); l[i] = x; return tuple(l)
    @staticmethod
    def powi(a, n):
        if n.__class__ is int: return fpowi(a, sgn(n, 32))
        raise Unsupported("powi with symbolic exponent")
    @staticmethod
    def fma(a, b, c): return dag.fun('fma', a, b, c)
    @staticmethod
    def minmax(mx, a, b):
        # IEEE maxNum/minNum; NaN operand -> the other
        c = olt(b, a) if mx else olt(a, b)
        r = fite(c, a, b)
        return fite(dag.isnan(a), b, fite(dag.isnan(b), a, r))
    @staticmethod
    def ovf(s, op, a, b, w):
        def f(x, y):
            if s == 's': x, y = sgn(x, w), sgn(y, w)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            o = not (-(1 << (w-1)) <= r < (1 << (w-1))) if s == 's' else not (0 <= r < (1 << w))
            return r & ((1 << w) - 1), int(o)
        if a.__class__ is int and b.__class__ is int: return f(a, b)
        return imap2(lambda x, y: f(x, y)[0], a, b), ibool(imap2(lambda x, y: f(x, y)[1], a, b))
    @staticmethod
    def sat(s, op, a, b, w):
        def f(x, y):
            if s == 's': x, y = sgn(x, w), sgn(y, w)
            r = x + y if op == 'add' else x - y
            lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if s == 's' else (0, (1 << w) - 1)
            return max(lo, min(hi, r)) & ((1 << w) - 1)
        return imap2(f, a, b)
    @staticmethod
    def iminmax(s, op, a, b, w):
        def f(x, y):
            k = (lambda q: sgn(q, w)) if s == 's' else (lambda q: q)
            return (max if op == 'max' else min)(x, y, key=k)
        return imap2(f, a, b)
    @staticmethod
    def iabs(a, w): return imap(lambda x: abs(sgn(x, w)) & ((1 << w) - 1), a)

def _mkarith(name, fn):
    def g(a, b, w):
        m = (1 << w) - 1
        if a.__class__ is int and b.__class__ is int: return fn(a, b, w) & m
        if a.__class__ is FNode or b.__class__ is FNode: raise Unsupported("integer arithmetic on float bits")
        if w == 1:
            r = {'and': lambda: band(ibool(a), ibool(b)), 'or': lambda: bor(ibool(a), ibool(b)),
                 'xor': lambda: dag.bite(ibool(a), bnot(ibool(b)), ibool(b))}.get(name)
            if r: return r()
        return imap2(lambda x, y: fn(x, y, w) & m, a, b)
    setattr(HELP, name + '_', staticmethod(g))
def _tdiv(a, b):
    q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
for _n, _f in dict(add=lambda a, b, w: a + b, sub=lambda a, b, w: a - b, mul=lambda a, b, w: a * b,
                   xor=lambda a, b, w: a ^ b, shl=lambda a, b, w: a << b, lshr=lambda a, b, w: a >> b,
                   ashr=lambda a, b, w: sgn(a, w) >> b, udiv=lambda a, b, w: a // b, urem=lambda a, b, w: a % b,
                   sdiv=lambda a, b, w: _tdiv(sgn(a, w), sgn(b, w)),
                   srem=lambda a, b, w: sgn(a, w) - sgn(b, w) * _tdiv(sgn(a, w), sgn(b, w))).items():
    _mkarith(_n, _f)
_mkarith('and', lambda a, b, w: a & b)
_mkarith('or', lambda a, b, w: a | b)
