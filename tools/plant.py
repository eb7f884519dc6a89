#!/usr/bin/env python3
"""plant.py new DEF.py        : make seeded/<id> from a definition (edits applied to a clean /repo, diffed, undone)
plant.py try ID [CHECK ...]   : apply the patch in /repo, build, stable tests, demo, checks; undo
A definition sets ID, PROP, EDITS = [(file, old, new)], DEMO (main.rs), NEEDS, BREAKS."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# PLANT_REPO and PLANT_VERIF: copies to work in (their Cargo.toml paths changed accordingly) instead of /repo and this folder
R = os.environ.get('PLANT_REPO', '/repo')
C = os.environ.get('PLANT_VERIF', V)
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def undo():
    sh(f'git -C {R} checkout -- .')
def clean():
    assert not sh(f'git -C {R} status --porcelain').stdout.strip(), f'{R} is not clean'
def new(f):
    d = {}
    exec(open(f).read(), d)
    clean()
    try:
        for p, a, b in d['EDITS']:
            t = open(f'{R}/{p}').read()
            assert t.count(a) == 1, f'{p}: {t.count(a)} matches of\n{a}'
            open(f'{R}/{p}', 'w').write(t.replace(a, b))
        diff = sh(f'git -C {R} diff').stdout
    finally:
        undo()
    o = f"{V}/seeded/{d['ID']}"
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    open(o + '/patch.diff', 'w').write(diff)
    t = V + '/tools/demo'
    shutil.copy(t + '/demo.sh', o)
    shutil.copytree(t, o + '/prog', ignore=lambda _, n: [x for x in n if x in ('demo.sh', 'target')])
    open(o + '/prog/src/main.rs', 'w').write(d['DEMO'])
    json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(o + '/meta.json', 'w'), indent=1)
    return d['ID']
def stable():
    return set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
def trial(i, checks):
    o = f'{V}/seeded/{i}'
    clean()
    demo = o
    if R != '/repo':
        demo = '/tmp/plant.demo'
        sh(f"rm -rf {demo}; cp -r {o} {demo}; sed -i 's#\"/repo\"#\"{R}\"#' {demo}/prog/Cargo.toml")
    base = sh(f'cd {R} && bash {demo}/demo.sh')
    print(f'{i}: demo on the unchanged tree: {base.returncode}', (base.stdout + base.stderr)[-300:].strip() if base.returncode else '')
    prop = json.load(open(o + '/meta.json'))['property']
    try:
        r = sh(f'git -C {R} apply {o}/patch.diff')
        assert r.returncode == 0, r.stderr
        b = sh(f"sed 's#/repo#{R}#g' /opt/vp/env.inc.sh >/tmp/plant.env; sed 's#/opt/vp/env.inc.sh#/tmp/plant.env#' /opt/vp/build.sh | bash" if R != '/repo' else 'bash /opt/vp/build.sh')
        t = sh(f". /tmp/plant.env; cargo test --workspace --features mpi --no-fail-fast --locked --offline -- --test-threads 8 2>&1; echo exit: $?" if R != '/repo' else 'bash /opt/vp/test.sh /tmp/plant.json')
        if b.returncode or 'exit: 0' not in t.stdout:
            print(f'{i}: build {b.returncode}', b.stderr[-1500:] if b.returncode else '', [l for l in t.stdout.splitlines() if 'exit' in l or 'FAILED' in l])
        d = sh(f'cd {R} && bash {demo}/demo.sh')
        print(f'{i}: build {b.returncode} tests {[l for l in t.stdout.splitlines() if "exit" in l]} demo {d.returncode}', (d.stdout + d.stderr)[-200:].strip().replace('\n', ' | '))
        for c in checks or [prop]:
            r = sh(f'{C}/check.sh {c}')
            l = [x for x in r.stdout.splitlines() if 'VIOLATION' in x or 'violation' in x or x.startswith('  ')]
            print(f'{i}: check {c} -> {r.returncode}', ' | '.join(x[:300] for x in l[:4]), r.stderr[-600:] if r.returncode == 2 else '', flush=True)
    finally:
        undo()
if sys.argv[1] == 'new':
    for f in sys.argv[2:]:
        print(new(f))
else:
    trial(sys.argv[2], sys.argv[3:])
