"""Builds /verif/seeded/<id>/ from tools/seeds/*.py (one definition each: PROP, FILE, EDITS, NEEDS,
BREAKS, DEMO) in a scratch copy of /repo: applies the edits, makes the diff, runs the tests and the
demonstration with and without the change, and keeps the folder only when everything holds.
    python3 tools/plant.py [id ...]"""
import os, sys, subprocess, shutil, json, tempfile, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
H="$(cd "$(dirname "$0")" && pwd)"
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
rustc --edition 2021 --crate-type rlib --crate-name aga8 -O --cfg 'feature="extern"' -A warnings src/lib.rs -o "$D/libaga8.rlib" || exit 3
rustc --edition 2021 -O -A warnings --extern aga8="$D/libaga8.rlib" "$H/demo.rs" -o "$D/demo" || exit 3
timeout 120 "$D/demo"
'''
PRE = '''use aga8::composition::{Composition, CompositionError};
use aga8::detail::Detail;
use aga8::gerg2008::Gerg2008;
use aga8::DensityError;
fn gas() -> Composition {
    Composition { methane: 0.77824, nitrogen: 0.02, carbon_dioxide: 0.06, ethane: 0.08, propane: 0.03, isobutane: 0.0015,
        n_butane: 0.003, isopentane: 0.0005, n_pentane: 0.00165, hexane: 0.00215, heptane: 0.00088, octane: 0.00024,
        nonane: 0.00015, decane: 0.00009, hydrogen: 0.004, oxygen: 0.005, carbon_monoxide: 0.002, water: 0.0001,
        hydrogen_sulfide: 0.0025, helium: 0.007, argon: 0.001 }
}
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def main(ids):
    S = '/tmp/plant_scratch'
    shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
    R = S + '/repo'
    subprocess.check_call(['cp', '-a', '/repo', R])
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    base = json.load(open('/opt/vp/BASELINE.json'))
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
        sid = os.path.basename(f)[:-3]
        if ids and sid not in ids: continue
        g = {}
        exec(open(f).read(), g)
        out = V + '/seeded/' + sid
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        demo = (PRE if g.get('USEPRE', True) else '') + g['DEMO']
        open(out + '/demo.rs', 'w').write(demo); open(out + '/demo.sh', 'w').write(DEMO_SH); os.chmod(out + '/demo.sh', 0o755)
        sh('git checkout -q -- .', R)
        d0 = sh('bash %s/demo.sh' % out, R)
        ok = True
        if d0.returncode != 0: print(sid, 'DEMO FAILS ON UNCHANGED', d0.returncode, d0.stdout[-1500:], d0.stderr[-1500:]); ok = False
        for fn, old, new in g['EDITS']:
            s = open(R + '/' + fn).read()
            if s.count(old) != 1: print(sid, 'edit matches', s.count(old), 'times:', old[:80]); ok = False; break
            open(R + '/' + fn, 'w').write(s.replace(old, new))
        if not ok: continue
        diff = sh('git diff', R).stdout
        open(out + '/patch.diff', 'w').write(diff)
        d1 = sh('bash %s/demo.sh' % out, R)
        if d1.returncode in (0, 3): print(sid, 'DEMO with patch exits', d1.returncode, d1.stdout[-1500:], d1.stderr[-2500:]); ok = False
        t = sh('rm -rf target/debug/.fingerprint/aga8-*; cargo test --workspace --features extern --no-fail-fast --offline -- --test-threads 8', R, env=env)
        log = t.stdout + t.stderr
        passed = len(re.findall(r'^test .* \.\.\. ok$', log, re.M)); failed = re.findall(r'^test (.*) \.\.\. FAILED$', log, re.M)
        if t.returncode != 0 or failed: print(sid, 'TESTS', passed, failed, log[-1500:] if not failed else ''); ok = False
        json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
        print(sid, 'OK' if ok else 'BAD', passed, 'tests pass; demo said:', d1.stdout.strip()[-200:], '|', d1.stderr.strip()[-200:])
        if not ok: shutil.rmtree(out)
    shutil.rmtree(S, ignore_errors=True)
main(sys.argv[1:])
