"""Parent side of the native replays: scripts of API calls run on the real library."""
import json, subprocess, sys, os, threading, queue, time, shutil
from .ctx import GASES
PN = ['d', 'mm', 'z', 'dp_dd', 'd2p_dd2', 'dp_dt', 'u', 'h', 's', 'cv', 'cp', 'w', 'g', 'jt', 'kappa']
HERE = os.path.dirname(os.path.abspath(__file__))

class Native:
    def __init__(self, ctx, timeout=20.0):
        self.ctx = ctx; self.timeout = timeout; self.p = None
        L = ctx.lay
        self.head = json.dumps(dict(so=ctx.build.so, offsets={w: ctx.fields(w) for w in ('detail', 'gerg')},
                                    sizes=dict(detail=L['detail.size'], gerg=L['gerg.size'], comp=L['comp.size'], props=L['props.size']),
                                    comp=[L['comp.' + g] for g in GASES],
                                    props={f: L['props.' + f] for f in PN}, propnames=PN,
                                    enums=dict(set_composition=dict(size=L['CompositionError.size'], codes={L['CompositionError.Ok']: 0, L['CompositionError.Empty']: 1, L['CompositionError.BadSum']: 2}),
                                               calculate_density=dict(size=L['DensityError.size'], codes={L['DensityError.Ok']: 0, L['DensityError.IterationFail']: 1, L['DensityError.PressureTooLow']: 2})))) + "\n"
        self.runs = 0
    def _start(self):
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, 'native_worker.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd='/')
        self.p.stdin.write(self.head); self.p.stdin.flush()
        self.q = queue.Queue()
        p, q = self.p, self.q
        def rd():
            for l in p.stdout: q.put(l)
            q.put(None)
        threading.Thread(target=rd, daemon=True).start()
    def stop(self):
        if self.p is not None:
            self.p.kill(); self.p.wait(); self.p = None
    def run(self, scripts, until=None):
        """list of results; a result is the list of outputs, or {'crash': ...}"""
        res = []
        W = 16
        i = 0; sent = 0
        while i < len(scripts):
            if until is not None and time.time() > until:
                if sent > i: self.stop()      # answers still to come belong to nobody
                break
            if self.p is None: self._start(); sent = i
            while sent < len(scripts) and sent < i + W:
                try: self.p.stdin.write(json.dumps(scripts[sent]) + "\n"); self.p.stdin.flush()
                except (BrokenPipeError, OSError): break
                sent += 1
            try: l = self.q.get(timeout=self.timeout)
            except queue.Empty:
                self.stop(); res.append({'crash': 'no answer within %g s' % self.timeout}); i += 1; continue
            if l is None:
                rc = self.p.wait(); self.p = None
                res.append({'crash': 'process ended with status %s' % rc}); i += 1; continue
            res.append(json.loads(l)); i += 1; self.runs += 1
        return res
