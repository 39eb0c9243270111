"""Runs scripts of calls on the native library built from /repo (a child process:
the library under test is never loaded into the checker).  One JSON line per script."""
import sys, json, ctypes, math
def main():
    job = json.loads(sys.stdin.readline())
    lib = ctypes.CDLL(job['so']); off = job['offsets']; sizes = job['sizes']; comp = job['comp']
    D = ctypes.c_double; P = ctypes.c_void_p; I = ctypes.c_int32
    sig = {}
    for w in ('detail', 'gerg'):
        sig['vp_%s_new' % w] = (None, [P]); sig['vp_%s_default' % w] = (None, [P])
        sig['vp_%s_set_composition' % w] = (I, [P, P])
        sig['vp_%s_pressure' % w] = (D, [P])
        sig['vp_%s_properties' % w] = (D if w == 'gerg' else None, [P])
        sig['vp_%s_molar_mass' % w] = (D, [P])
        sig['vp_%s_density' % w] = (I, [P] + ([I] if w == 'gerg' else []))
    for n, r in (('sum', D), ('check', I), ('normalize', I), ('default', None)): sig['vp_comp_' + n] = (r, [P])
    for n, (r, a) in sig.items():
        f = getattr(lib, n); f.restype = r; f.argtypes = a
    def cbuf(xs):
        b = ctypes.create_string_buffer(sizes['comp'])
        for i, x in enumerate(xs): D.from_buffer(b, comp[i]).value = x
        return b
    PRE = {'detail': 'aga8_', 'gerg': 'gerg_'}; prop = job['props']
    class Rec(ctypes.Structure): _fields_ = [('b', ctypes.c_char * sizes['props'])]
    def ffi(which, name, handle, arg):
        """one exported C function; the error code is reported like the probe's codes"""
        f = getattr(lib, PRE[which] + name); f.restype = None; f.argtypes = [P]; a = [handle]
        if name == 'set_composition' or name == 'calculate_density':
            enum = job['enums'][name]; e = (ctypes.c_ubyte * 8)(*([255] * 8)); n = enum['size']
            if name == 'set_composition': a.append(cbuf(arg[0])); f.argtypes = [P, P, P]
            else: f.argtypes = [P, P]
            f(*a, e); v = int.from_bytes(bytes(e[:n]), 'little')
            return enum['codes'].get(str(v), -v)
        if name.startswith('set_'): f.argtypes = [P, D]; f(handle, arg[0]); return None
        if name == 'get_properties':
            f.restype = Rec; r = f(handle); b = ctypes.create_string_buffer(ctypes.string_at(ctypes.byref(r), sizes['props']), sizes['props'])
            return [D.from_buffer(b, prop[k]).value for k in job['propnames']]
        if name.startswith('get_') or name in ('calculate_pressure', 'calculate_molar_mass'): f.restype = D
        return f(handle)
    for line in sys.stdin:
        sc = json.loads(line)
        objs = {}; out = []
        which = sc.get('which')
        for st in sc['steps']:
            k = st[0]
            if k == 'new':
                objs[st[1]] = b = ctypes.create_string_buffer(sizes[which])
                getattr(lib, 'vp_%s_%s' % (which, st[2] if len(st) > 2 else 'new'))(b)
            elif k == 'set':
                for f, v in st[2].items():
                    if f == 'x':
                        for i, x in enumerate(v): D.from_buffer(objs[st[1]], off[which]['x%d' % i]).value = x
                    else: D.from_buffer(objs[st[1]], off[which][f]).value = v
            elif k == 'setcomp':
                out.append(getattr(lib, 'vp_%s_set_composition' % which)(objs[st[1]], cbuf(st[2])))
            elif k == 'call':
                out.append(getattr(lib, 'vp_%s_%s' % (which, st[2]))(objs[st[1]], *st[3:]))
            elif k == 'get':
                out.append([D.from_buffer(objs[st[1]], off[which][f]).value for f in st[2]])
            elif k == 'comp':       # operation on a composition: result, then components
                b = cbuf(st[2]); r = getattr(lib, 'vp_comp_' + st[1])(b)
                out.append([r, [D.from_buffer(b, comp[i]).value for i in range(21)]])
            elif k == 'ffinew':
                f = getattr(lib, PRE[which] + 'new'); f.restype = P; f.argtypes = []
                p = f(); objs[st[1]] = (ctypes.c_char * sizes[which]).from_address(p); objs[('p', st[1])] = p
            elif k == 'ffi': out.append(ffi(which, st[2], objs[('p', st[1])], st[3:]))
            elif k == 'ffinull': out.append(ffi(which, st[1], None, st[2:]))
            elif k in ('ffifree', 'ffifreenull'):
                f = getattr(lib, PRE[which] + 'free'); f.restype = None; f.argtypes = [P]; f(objs.pop(('p', st[1])) if k == 'ffifree' else None)
            elif k == 'churn':      # create and release n handles (running the given calls on each); growth of the process in bytes
                nw = getattr(lib, PRE[which] + 'new'); nw.restype = P; nw.argtypes = []
                fr = getattr(lib, PRE[which] + 'free'); fr.restype = None; fr.argtypes = [P]
                def rss(): return int(open('/proc/self/statm').read().split()[1]) * 4096
                def turn():
                    h = nw()
                    for c in st[2]: ffi(which, c[0], h, c[1:])
                    fr(h)
                for _ in range(50): turn()
                r0 = rss()
                for _ in range(st[1]): turn()
                out.append(rss() - r0)
            elif k == 'raw':
                out.append(objs[st[1]].raw.hex())
            else: raise ValueError(k)
        sys.stdout.write(json.dumps(out) + "\n"); sys.stdout.flush()
main()
