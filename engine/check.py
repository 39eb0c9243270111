"""Check runner: collects obligations, writes evidence, searches for a failing input
when an obligation is not discharged, and reports the verdict."""
import os, sys, json, time, traceback, re, subprocess, signal
from .ctx import *
from .dag import Unsupported, Unbounded
from .build import VERIF, REPO
from .native import Native

GLOBAL_TRUST = [
    "rustc's translation of the source to LLVM IR (the verified text is the IR rustc emits for /repo on this run, opt-level 0, overflow checks on, panic=abort) and LLVM's translation of that IR to machine code",
    "engine/ (IR parser, symbolic executor = verification-condition generator, hash-consing term equality, normal-form rewriting) implemented here in Python",
    "native/probe.rs: one-line wrappers that forward to the public API",
]
ARITH_REAL = "machine arithmetic is read as exact real arithmetic in this check (coefficients compared with relative tolerance 1e-10): rounding, overflow and underflow are not covered"
ARITH_EUF = "floating-point operations are uninterpreted but deterministic (same operation on the same bits gives the same bits; libm exp/log/pow included); no algebraic law of the reals is used"

DEADLINE = 560          # seconds for the proof; then what is left undecided counts as not discharged
MEMORY = 20 << 30
class Limit(BaseException): pass
def limits(tier):
    """a proof that does not end is an obligation not discharged, not a check without an answer"""
    import resource
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (hard if tier is None or hard != resource.RLIM_INFINITY and hard < MEMORY else MEMORY, hard))
    if tier is None: return
    def stop(sig, frame):
        signal.alarm(20)        # again, in case the first one is swallowed
        raise Limit('%d s used up' % DEADLINE)
    if tier != 'thorough':
        signal.signal(signal.SIGALRM, stop); signal.alarm(DEADLINE)

def demangle(n):
    """v0 (and legacy) symbol to its path; approximate, for reports and for naming functions under contract"""
    if n.startswith('_R'):
        out = []; i = 2
        while i < len(n):
            c = n[i]
            if c in 'sB':
                m = re.compile(c + r'[0-9A-Za-z]*_').match(n, i)
                if m: i = m.end(); continue
            if c.isdigit():
                m = re.compile(r'\d+').match(n, i); k = int(m.group(0)); i = m.end()
                if i < len(n) and n[i] == '_': i += 1
                out.append(n[i:i + k]); i += k; continue
            i += 1
        return '::'.join(out)
    m = re.match(r'_ZN(.*)E$', n)
    if not m: return n
    s = m.group(1); out = []
    while s and s[0].isdigit():
        k = re.match(r'\d+', s).group(0); s = s[len(k):]; out.append(s[:int(k)]); s = s[int(k):]
    if out and re.match(r'h[0-9a-f]{16}$', out[-1]): out.pop()
    r = '::'.join(out)
    for a, b in (('$LT$', '<'), ('$GT$', '>'), ('$u20$', ' '), ('$RF$', '&'), ('$C$', ','), ('..', '::')): r = r.replace(a, b)
    return r

class Check:
    def __init__(self, pid):
        self.pid = pid; self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1); self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.obs = []; self.assumptions = []; self.functions = set(); self.std = set(); self.contracts = []; self.reach = []
        self.bounded = []
        self.backend_time = {}
        self.ctx = Ctx()
        limits(self.tier)
        self.info = {}
        self.hints = []          # terms whose conditions guide the counterexample search
    # ---- obligations
    def ob(self, name, ok, backend, detail='', t=0.0):
        self.obs.append(dict(name=name, ok=bool(ok), backend=backend, detail=str(detail)[:2000]))
        self.backend_time[backend] = self.backend_time.get(backend, 0.0) + t
        if os.environ.get('VERIF_VERBOSE'): print('  %-70s %s %.2fs %s' % (name, 'ok' if ok else 'FAILED', t, '' if ok else str(detail)[:200]))
        return ok
    def failed(self): return [o for o in self.obs if not o['ok']]
    def attempt(self, name, fn, *a, **k):
        """run a group of obligations; an exception in the generator is a failed obligation"""
        t = time.time()
        try:
            if self.tier != 'thorough' and t - self.t0 > DEADLINE: raise Limit('%d s used up' % DEADLINE)
            return fn(*a, **k)
        except Limit as e:
            self.ob(name + ': decided within the limits', False, 'vcgen', str(e), time.time() - t)
        except Unsupported as e:
            self.ob(name + ': verification conditions generated', False, 'vcgen', 'unsupported construct: %s' % e, time.time() - t)
        except Dead:
            self.ob(name + ': function returns', False, 'vcgen', 'no path through the function reaches a return', time.time() - t)
        except (RecursionError, MemoryError, ArithmeticError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            self.ob(name + ': verification conditions generated', False, 'vcgen', traceback.format_exc()[-1500:], time.time() - t)
    def ran(self, E):
        """functions executed symbolically (bodies taken from the IR of this run)"""
        for n in E.called:
            d = demangle(n)
            if d.startswith('aga8::'): self.functions.add(d[6:])
            elif not n.startswith('vp_'): self.std.add('::'.join(d.split('::')[:6]))
    def noreports(self, E, name):
        bad = ['%s in %s' % (m, demangle(st[-1]) if st else '?') for m, pc, st in E.reports]
        return self.ob(name, not bad, 'vcgen', '; '.join(sorted(set(bad))[:5]))
    # ---- verdict
    def finish(self, finder=None):
        signal.alarm(0); limits(None)
        bad = self.failed()
        code = 0
        if not self.obs:
            self.obs.append(dict(name='at least one obligation generated', ok=False, backend='vcgen', detail='no obligations')); bad = self.obs
        if not bad and finder is not None and self.tier == 'thorough':
            # corroboration: the search for failing inputs, on the real code, although everything is proved
            nat = Native(self.ctx); t = time.time(); f = None
            try: f = finder(self, nat)
            except Exception: self.info['corroboration_error'] = traceback.format_exc()[-1500:]
            finally: nat.stop()
            self.info['corroboration'] = dict(native_runs=nat.runs, seconds=round(time.time() - t, 1), failing_input=f)
            if f: bad = [self.obs[-1]]; self.ob('no failing input among %d native runs' % nat.runs, False, 'native', f.get('what', '')); bad = self.failed()
        if bad:
            code = 1
            found = None; searched = {}
            if finder is not None:
                nat = Native(self.ctx)
                t = time.time()
                try: found = finder(self, nat)
                except Exception as e: searched['error'] = traceback.format_exc()[-2000:]
                finally: nat.stop()
                searched['seconds'] = round(time.time() - t, 1); searched['native_runs'] = nat.runs
            d = os.path.join(VERIF, 'replay'); os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s.json' % self.pid)
            json.dump(dict(property=self.pid, repo=REPO, source_hash=self.ctx.source_hash(),
                           failed_obligations=bad, counterexample=found, search=searched,
                           how='%s/check --replay %s' % (VERIF, path)), open(path, 'w'), indent=1, default=str)
            for o in bad[:12]: print("obligation not discharged: %s [%s] %s" % (o['name'], o['backend'], o['detail'][:300].replace('\n', ' ')))
            if len(bad) > 12: print("... and %d more" % (len(bad) - 12))
            if found: print("failing input: %s" % found.get('what', '')[:600])
            print("VIOLATION property=%s replay=%s%s" % (self.pid, path, '' if found else ' no-failing-input-found'))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='proof',
                  coverage=dict(obligations=len(self.obs), discharged=len(self.obs) - len(self.failed()),
                                checker_cmd='cd /verif && ./check %s' % self.pid,
                                trusted_base=GLOBAL_TRUST, functions_under_contract=sorted(self.contracts),
                                functions_executed_inline=sorted(self.functions), library_functions_executed_inline=sorted(self.std)[:60],
                                by_backend={b: sum(1 for o in self.obs if o['backend'] == b) for b in {o['backend'] for o in self.obs}},
                                solver_seconds={b: round(t, 2) for b, t in self.backend_time.items()},
                                obligation_names=[o['name'] for o in self.obs][:400],
                                reachability=self.reach, bounded=self.bounded, source_hash=self.ctx.source_hash(), **self.info),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=1 if bad else 0)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        if not bad: print("%s: %d obligations discharged in %.1f s" % (self.pid, len(self.obs), time.time() - self.t0))
        self.ctx.close()
        return code

def pmap(fn, items, procs=8):
    """run fn on each item in forked children (inherits all state); results are plain data"""
    import multiprocessing as mp
    if len(items) <= 1 or os.environ.get("VERIF_SERIAL"): return [fn(i) for i in items]
    global _PF
    _PF = fn
    with mp.get_context('fork').Pool(min(procs, len(items))) as p:
        return p.map(_call, items, chunksize=1)
def _call(i):
    try: return _PF(i)
    except Unsupported as e: return ('unsupported', str(e))
    except Dead: return ('dead', '')
    except Exception: return ('error', traceback.format_exc()[-1500:])

class Sub:
    """obligations generated in a child process"""
    def __init__(self, ck): self.ck = ck; self.ctx = ck.ctx; self.obs = []; self.functions = set(); self.std = set(); self.hints = []; self.reach = []
    def ob(self, name, ok, backend, detail='', t=0.0): self.obs.append((name, bool(ok), backend, str(detail)[:2000], t)); return ok
    def ran(self, E): Check.ran(self, E)
    def noreports(self, E, name): return Check.noreports(self, E, name)
    def data(self): return dict(obs=self.obs, functions=self.functions, std=self.std, reach=self.reach)

def each(ck, name, fn, items):
    """run fn on the items in child processes and collect their obligations"""
    items = list(items)
    for it, r in zip(items, pmap(fn, items)):
        if isinstance(r, dict):
            for o in r['obs']: ck.ob(*o)
            ck.functions |= r['functions']; ck.std |= r['std']; ck.reach += r['reach']
        else: ck.ob('%s %s: verification conditions generated' % (name, it), False, 'vcgen', ' '.join(map(str, r))[:1500])
