"""./check --replay FILE: show the failed obligations and run the recorded counterexample
(if there is one) on the library built from the current /repo."""
import json
from .ctx import Ctx
from .native import Native
def main(path):
    d = json.load(open(path))
    print("property %s, recorded for sources %s" % (d['property'], d['source_hash']))
    for o in d['failed_obligations']: print("obligation not discharged: %s [%s]\n    %s" % (o['name'], o['backend'], o['detail'][:1500]))
    c = d.get('counterexample')
    if not c: print("no failing input was found (search: %s)" % d.get('search')); return 0
    print("recorded failure: %s" % c['what'])
    sc = c.get('script') or (dict(steps=[['comp', k, c['composition']] for k in ('sum', 'check', 'normalize')]) if 'composition' in c else None)
    if sc is None: return 0
    ctx = Ctx(); nat = Native(ctx)
    try:
        print("sources now: %s" % ctx.source_hash())
        r = nat.run([sc])[0]
        if isinstance(r, dict): print("now: %s" % r['crash']); return 1
        it = iter(r)
        for st in sc['steps']:
            print("  %s" % json.dumps(st)[:600])
            if st[0] in ('setcomp', 'call', 'get', 'comp', 'ffi'): print("      -> %s" % json.dumps(next(it, None))[:1200])
    finally: nat.stop(); ctx.close()
    return 0
