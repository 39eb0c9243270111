"""One-off: pins the published coefficient tables from the base commit's source text
into /verif/contracts/*.json (the specification's own copy; never re-read from /repo)."""
import re, json, sys
det = open(sys.argv[1]).read(); ger = open(sys.argv[2]).read()
def parse_const(src, name):
    m = re.search(r'^const %s: [^=]*= ' % name, src, re.M)
    i = m.end(); depth = 0; j = i
    while True:
        c = src[j]
        if c == '[': depth += 1
        if c == ']': depth -= 1
        j += 1
        if (c == ']' and depth == 0) or (c == ';' and depth == 0): break
    t = re.sub(r'//[^\n]*', '', src[i:j]).rstrip(';').replace('_', '')
    m2 = re.match(r'\[([\d.eE+-]+);\s*(\w+)\]', t)
    return json.loads(json.dumps(eval(t)))
def num(s): return float(s.replace('_', ''))
T = {}
for n in "MMI AN BN KN UN FN GN QN SN WN EI KI GI QI FI SI WI EIJ UIJ KIJ GIJ TH0I".split():
    T[n] = parse_const(det, n)
T['R'] = 8.31451
n0 = [[0.0] * 7 for _ in range(21)]
for a, b, v in re.findall(r'self\.n0i\[(\d+)\]\[(\d+)\] = ([-\d._eE+]+);', det): n0[int(a)][int(b)] = num(v)
T['N0'] = n0
json.dump(T, open('/verif/contracts/detail_tables.json', 'w'), indent=0)
G = {}
for n in "MMI_GERG KPOL KEXP KPOLIJ KEXPIJ DC TC NOIK FIJ MNUMB TH0I GVIJ BTIJ GTIJ".split():
    G[n] = parse_const(ger, n)
lines = ger.split('\n')
A = {}
ctx = None; depth = 0
for ln in lines[2433:4222]:
    s = ln.strip()
    if s.startswith('for i in 1..=MAXFLDS'): ctx = list(range(1, 22))
    elif s.startswith('for i in 1..=4'): ctx = [1, 2, 4]
    for a, i, j, v in re.findall(r'(?:self\.)?(\w+)\[(\w+)\]\[(\w+)\] = ([-\d._eE+]+);', s):
        if i == 'i' and j == 'i': continue
        idx = ctx if i == 'i' else [int(i)]
        for k in idx: A.setdefault(a, {})[(k, int(j))] = num(v)
print({k: len(v) for k, v in A.items()})
def full(n, d):
    r = max(i for i, _ in d) + 1; c = max(j for _, j in d) + 1
    out = [[0.0] * c for _ in range(r)]
    for (i, j), v in d.items(): out[i][j] = v
    return out
for n in A: G[n] = full(n, A[n])
G['R'] = 8.314472; G['RS'] = 8.31451
# cross-check of the published reducing parameters against the preprocessed constants
bad = 0
for i in range(1, 22):
    for j in range(i + 1, 22):
        gv = G['gvij'][i][j] * G['bvij'][i][j] * (1 / G['DC'][i] ** (1 / 3) / 2 + 1 / G['DC'][j] ** (1 / 3) / 2) ** 3
        gt = G['gtij'][i][j] * G['btij'][i][j] * (G['TC'][i] * G['TC'][j]) ** .5
        for nm, x, y in (('GVIJ', gv, G['GVIJ'][i][j]), ('GTIJ', gt, G['GTIJ'][i][j]), ('BTIJ', G['btij'][i][j] ** 2, G['BTIJ'][i][j])):
            if abs(x - y) > 1e-12 * abs(x): print(nm, i, j, x, y); bad += 1
for i in range(1, 22):
    if abs(G['GVIJ'][i][i] - 1 / G['DC'][i]) > 1e-14: print('GV', i, G['GVIJ'][i][i], 1 / G['DC'][i])
    if G['GTIJ'][i][i] != G['TC'][i]: print('GT', i)
    if G['BTIJ'][i][i] != 1: print('BT', i)
print('mismatches', bad)
json.dump(G, open('/verif/contracts/gerg_tables.json', 'w'), indent=0)
