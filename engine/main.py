import sys, importlib, os, json, traceback
sys.setrecursionlimit(20000)
from .check import Check, Limit
def main():
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        from . import replay
        sys.exit(replay.main(sys.argv[2]))
    pid = sys.argv[1]
    mod = importlib.import_module('props.' + MODULES[pid])
    ck = Check(pid)
    try:
        try: code = mod.run(ck)
        except Limit as e:
            ck.ob('decided within the limits', False, 'vcgen', str(e)); code = ck.finish()
    finally:
        ck.ctx.close()
    sys.stdout.flush()
    sys.exit(code)
MODULES = {'C04': 'helmholtz', 'C06': 'helmholtz', 'C07': 'helmholtz', 'C08': 'helmholtz', 'C09': 'helmholtz', 'C16': 'helmholtz', 'C18': 'limits',
           'C01': 'composition', 'C02': 'composition', 'C03': 'setcomp', 'C05': 'safety', 'C10': 'density', 'C11': 'density',
           'C12': 'history', 'C13': 'history', 'C14': 'ffi', 'C15': 'ffi', 'C17': 'frames'}
main()
