"""Parser for the textual LLVM IR that rustc emits, and a per-block compiler to
Python.  Nothing here knows about the program under verification."""
import re, struct
from .dag import Unsupported, from_bits

class Module:
    def __init__(self, path, tag):
        self.tag = tag
        self.globals = {}      # name -> (bytes, relocs[(off,name)], align)
        self.funcs = {}        # name -> Function (lazy)
        self.decls = set()
        self.display = {}      # symbol -> pretty name (from '; call <...>' comments)
        self._parse(open(path).read())

    def _parse(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        self.calls_pretty = {}
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                f = Function(self, l, lines[i + 1:j])
                if i and lines[i-1].startswith('; '):
                    f.pretty = lines[i-1][2:]
                self.funcs[f.name] = f
                i = j + 1; continue
            if l.startswith('declare'):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
                self.decls.add(m.group(1).strip('"'))
            elif l.startswith('@'):
                self._global(l)
            i += 1

    def _global(self, l):
        m = re.match(r'@("[^"]+"|[\w.$]+) = (.*)$', l)
        name = m.group(1).strip('"'); rest = m.group(2)
        m = re.search(r'\b(?:constant|global) (.*)$', rest)
        if not m: return
        try:
            data, rel = _const(m.group(1))
        except Unsupported:
            data, rel = None, None
        self.globals[name] = (data, rel)

def _ty_end(s, i):
    """index just past a type starting at s[i]"""
    if s[i] in '[<{':
        d = 0
        while True:
            if s[i] in '[<{(': d += 1
            elif s[i] in ']>})': d -= 1
            i += 1
            if d == 0: break
        return i
    m = re.compile(r'[%\w.$]+').match(s, i)
    return m.end()

def ty_size(t):
    if t in ('double', 'i64', 'ptr'): return 8
    if t in ('i32', 'float'): return 4
    if t == 'i16': return 2
    if t in ('i8', 'i1'): return 1
    if t == 'i128': return 16
    m = re.match(r'\[(\d+) x (.+)\]$', t)
    if m: return int(m.group(1)) * ty_size(m.group(2))
    m = re.match(r'<?\{(.*)\}>?$', t.strip())
    if m:
        off = 0; packed = t.startswith('<')
        al = 1
        for x in split_top(m.group(1)):
            s = ty_size(x); a = 1 if packed else ty_align(x); al = max(al, a)
            off = (off + a - 1) // a * a + s
        return (off + al - 1) // al * al
    raise Unsupported("type " + t)
def ty_align(t):
    m = re.match(r'\[(\d+) x (.+)\]$', t)
    if m: return ty_align(m.group(2))
    if t.startswith('{'):
        return max([ty_align(x) for x in split_top(t[1:-1])] + [1])
    return min(ty_size(t), 16)

def split_top(s):
    out = []; d = 0; q = False; cur = ''
    for ch in s:
        if ch == '"': q = not q
        if not q:
            if ch in '[<{(': d += 1
            elif ch in ']>})': d -= 1
            elif ch == ',' and d == 0:
                out.append(cur.strip()); cur = ''; continue
        cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def _cstr(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\' and s[i+1] == '\\':
            out.append(92); i += 2
        elif s[i] == '\\':
            out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

def _const(s):
    """parse '<type> <value>[, align ...]' -> bytes, relocs"""
    s = s.strip()
    e = _ty_end(s, 0); t = s[:e]; v = s[e:].strip()
    return _cval(t, v)
def _cval(t, v):
    if v.startswith('c"'):
        j = v.index('"', 2)
        return _cstr(v[2:j]), []
    if v.startswith('zeroinitializer') or v.startswith('undef') or v.startswith('poison'):
        return bytes(ty_size(t)), []
    if v.startswith('<{') or v.startswith('{') or v.startswith('['):
        d = 0; q = False
        for k, ch in enumerate(v):
            if ch == '"': q = not q
            if q: continue
            if ch in '[<{(': d += 1
            elif ch in ']>})': d -= 1
            if d == 0: break
        body = v[:k+1]
        body = body[2:-2] if body.startswith('<{') else body[1:-1]
        packed = v.startswith('<{') or v.startswith('[')
        out = b''; rel = []
        for el in split_top(body):
            e = _ty_end(el, 0)
            b, r = _cval(el[:e], el[e:].strip())
            if not packed:
                a = ty_align(el[:e]); out += bytes(-len(out) % a)
            rel += [(o + len(out), n) for o, n in r]
            out += b
        return out, rel
    if t == 'ptr':
        m = re.match(r'@("[^"]+"|[\w.$]+)', v)
        if m: return bytes(8), [(0, m.group(1).strip('"'))]
        if v.startswith('null'): return bytes(8), []
    v = v.split(',')[0].strip()
    if t == 'double': return struct.pack('<d', parse_fp(v)), []
    if re.match(r'i\d+$', t):
        x = {'true': 1, 'false': 0}.get(v)
        if x is None: x = int(v)
        n = ty_size(t)
        return (x & ((1 << 8*n) - 1)).to_bytes(n, 'little'), []
    raise Unsupported("constant %s %s" % (t, v[:40]))

def parse_fp(v):
    m = re.match(r'f?0x([0-9A-Fa-f]{16})$', v)
    if m: return from_bits(int(m.group(1), 16))
    m = re.match(r'([+-])(inf|nan|qnan|snan)', v)
    if v in ('inf', '+inf'): return float('inf')
    if v == '-inf': return float('-inf')
    if v in ('nan', '+nan', '-nan', 'qnan', '+qnan', '-qnan'): return float('nan')
    return float(v)

_attr = re.compile(r'\b(?:noundef|nonnull|noalias|zeroext|signext|inreg|writeonly|readonly|readnone|nocapture|immarg|returned|allocalign|allocptr|dead_on_unwind|writable|noundef)\b ?|captures\([^)]*\) ?|align \d+ ?|dereferenceable(?:_or_null)?\(\d+\) ?|range\([^)]*\) ?|initializes\(\([^)]*\)\) ?|sret\([^)]*\) ?|dead_on_return ?|nofpclass\([^)]*\) ?')

class Function:
    def __init__(self, mod, header, body):
        self.mod = mod; self.header = header; self.body = body
        m = re.search(r'@("[^"]+"|[\w.$]+)\(', header)
        self.name = m.group(1).strip('"')
        self.pretty = None
        self._ready = False
        i = m.end(); d = 1; j = i
        while d:
            if header[j] in '([{<': d += 1
            elif header[j] in ')]}>': d -= 1
            j += 1
        self.params_raw = header[i:j-1]
        self.rettype = _attr.sub('', header[len('define'):m.start()]).strip().split()[-1] if '{' not in header[:m.start()] else 'agg'

    # ---- lowering
    def prepare(self):
        if self._ready: return
        self._ready = True
        self.params = []
        for p in split_top(self.params_raw):
            self.params.append(p.split()[-1])
        blocks = []   # (label, [instr lines])
        cur = None
        lines = self.body
        k = 0
        while k < len(lines):
            l = lines[k]; k += 1
            if not l or l.startswith(';'): continue
            s = l.strip()
            if s.startswith('#dbg') or s.startswith(';'): continue
            m = re.match(r'^("[^"]+"|[\w.$-]+):', l)
            if m and not l.startswith(' '):
                cur = (m.group(1).strip('"'), []); blocks.append(cur); continue
            if s.startswith('switch') and s.rstrip().endswith('['):
                while not lines[k].strip().startswith(']'):
                    s += ' ' + lines[k].strip(); k += 1
                s += ' ' + lines[k].strip(); k += 1
            c = s.find(' ;')
            if c >= 0 and '"' not in s: s = s[:c]
            s = re.sub(r',? ![\w.]+ ![\w.]+(?=$|,| )', '', s)
            s = re.sub(r', !\w+ !\d+', '', s)
            cur[1].append(s.strip())
        self.blocks = blocks
        self.bidx = {b[0]: i for i, b in enumerate(blocks)}
        self._cfg()

    def _cfg(self):
        succ = []
        for lab, ins in self.blocks:
            t = ins[-1]
            ss = re.findall(r'label %("[^"]+"|[\w.$-]+)', t) if t.split()[0] in ('br', 'switch', 'invoke') or ' invoke ' in t else []
            succ.append([self.bidx[x.strip('"')] for x in ss])
        self.succ = succ
        self.order = wto(succ)      # block -> (position, [heads containing], ...)

def wto(succ):
    """Order blocks so that every loop body is contiguous.  Returns
    (pos, loop_end) : pos[b] position; loop_end[h] = last position of loop h."""
    n = len(succ)
    pos = {}; loop_end = {}
    counter = [0]
    def sccs(nodes, removed_edges_to):
        # Tarjan (iterative) on the subgraph; returns SCCs in reverse topological order
        idx = {}; low = {}; st = []; on = set(); out = []; c = [0]
        for root in nodes:
            if root in idx: continue
            work = [(root, iter([s for s in succ[root] if s in nodes and s not in removed_edges_to]))]
            idx[root] = low[root] = c[0]; c[0] += 1; st.append(root); on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = c[0]; c[0] += 1; st.append(w); on.add(w)
                        work.append((w, iter([s for s in succ[w] if s in nodes and s not in removed_edges_to])))
                        adv = True; break
                    elif w in on: low[v] = min(low[v], idx[w])
                if adv: continue
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == v: break
                    out.append(comp)
        return out
    preds = [[] for _ in range(n)]
    for a in range(n):
        for b in succ[a]: preds[b].append(a)
    def emit(nodes, heads, entry):
        nodes = set(nodes)
        comps = sccs(sorted(nodes), heads)
        for comp in reversed(comps):
            if len(comp) == 1 and not (comp[0] in succ[comp[0]] and comp[0] not in heads):
                pos[comp[0]] = counter[0]; counter[0] += 1
            else:
                cs = set(comp)
                ent = [b for b in comp if b == entry or any(p not in cs for p in preds[b])]
                h = min(ent) if ent else min(comp)
                pos[h] = counter[0]; counter[0] += 1
                emit(cs - {h}, heads | {h}, None)
                loop_end[h] = counter[0] - 1
    emit(set(range(n)), frozenset(), 0)
    return pos, loop_end
