"""Write and confirm one planted bug: plant.py SPEC.py, where SPEC.py defines
ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).  Uses a scratch copy of /repo in /tmp."""
import json, os, subprocess, sys, runpy

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as stated, non-zero: broken.  Run in the nempy checkout.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
PYTHONPYCACHEPREFIX="$tmp/pyc" PYTHONPATH="$PWD/src" SCRATCH="$tmp" /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    work = '/tmp/plant_work'
    sh('rm -rf ' + work)
    sh('cp -a /repo ' + work)
    for f, old, new in s['EDITS']:
        p = os.path.join(work, f)
        t = open(p).read()
        assert t.count(old) == 1, (s['ID'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    d = os.path.join(ROOT, 'seeded', s['ID'])
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=work).stdout)
    open(d + '/demo.py', 'w').write(s['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
    good = sh('bash %s/demo.sh' % d, cwd='/repo')
    bad = sh('bash %s/demo.sh' % d, cwd=work)
    missing = [] if mutate.tests(work) else ['stable tests fail']
    sh('rm -rf ' + work)
    ok = good.returncode == 0 and bad.returncode != 0 and not missing
    print(s['ID'], 'OK' if ok else 'BAD', 'clean', good.returncode, 'patched', bad.returncode, 'tests', missing[:4])
    if good.returncode:
        print(good.stdout[-500:], good.stderr[-800:])
    print('   patched says:', (bad.stdout + bad.stderr).strip().split('\n')[-1][:200])
