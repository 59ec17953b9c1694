#!/usr/bin/env python3
"""plant.py [id ...]: make /verif/seeded/<id> from tools/plants/<id>.py, confirm it and run the check of its property.

A spec is a python file with prop, needs, breaks, edits = [(file, old, new), ...] and demo (body of the Rust demonstration,
appended to tools/demo/prelude.rs), optional sh (demo.sh lines run instead of the program) and checks (further checks to run).
/repo must be clean; it is left clean."""
import json, os, shutil, subprocess, sys, glob, re
V = '/verif'
def sh(c, cwd='/repo', env=None, timeout=1000):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=e, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
def clean(): sh('git checkout -q -- .')
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ids = sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(V + '/tools/plants/*.py'))
assert sh('git status --short')[1].strip() == '', 'repo not clean'
res = []
for i in ids:
    s = {}
    exec(open(f'{V}/tools/plants/{i}.py').read(), s)
    d = f'{V}/seeded/{i}'
    try:
        os.makedirs(d, exist_ok=True)
        orig = False
        for f, old, new in s['edits']:
            p = '/repo/' + f
            t = open(p).read()
            if t.count(old) != 1:
                raise Exception(f'{f}: old text found {t.count(old)} times')
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff')[1]
        blame = 0
        for f in {e[0] for e in s['edits']}:
            for h in re.findall(r'^@@ -(\d+)', sh(f'git diff -U0 -- {f}')[1], re.M): pass
            lines = sh(f'git blame -s HEAD -- {f}')[1].splitlines()
            for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh(f'git diff -U0 -- {f}')[1], re.M):
                a = int(h[1]); n = int(h[2] or 1)
                blame += sum(lines[k - 1].startswith('^') for k in range(a, a + n))
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.rs', 'w').write(open(V + '/tools/demo/prelude.rs').read() + '\n' + s['demo'].strip() + '\n')
        ds = open(V + '/tools/demo/demo.sh').read()
        if 'sh' in s: ds = ds[:ds.index('ulimit -v')] + s['sh'].strip() + '\n'
        open(d + '/demo.sh', 'w').write(ds); os.chmod(d + '/demo.sh', 0o755)
        shutil.copy(V + '/tools/demo/Cargo.lock', d)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r, o = sh('bash /opt/vp/build.sh')
        if r: raise Exception('build failed\n' + '\n'.join(l for l in o.splitlines() if l.startswith('error'))[:2000] + o[-1500:])
        sh('bash /opt/vp/test.sh /tmp/plant-t.json')
        miss = base - set(json.load(open('/tmp/plant-t.json'))['passed'])
        rp, op = sh(f'bash {d}/demo.sh')
        caught = {}
        for c in [s['prop']] + s.get('checks', []):
            rc, oc = sh(f'{V}/run.sh {c}', env={'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            m = re.search(r'VIOLATION.*', oc)
            caught[c] = (rc, m[0][:100] if m else oc.strip().splitlines()[-1:] )
    except Exception as e:
        print(i, 'PLANT ERROR', e, flush=True); clean(); continue
    clean()
    rc0, oc0 = sh(f'bash {d}/demo.sh')
    ok = not miss and rp not in (0, 2) and rc0 == 0 and blame > 0
    print(f"{i}: {'ok' if ok else 'NOT OK'} tests_missing={list(miss)} demo_patched={rp} demo_clean={rc0} original_lines={blame} caught={caught}", flush=True)
    if not ok: print('   patched:', op[-600:], '\n   clean:', oc0[-600:], flush=True)
clean()
