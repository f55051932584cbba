"""builds /verif/seeded/<id>/ from tools/seeds.py; confirms each in a scratch copy.  usage: mkseed.py [id ...] [--check]"""
import os, sys, subprocess, json, shutil, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
spec = importlib.util.spec_from_file_location('seeds', os.path.join(HERE, 'seeds.py')); S = importlib.util.module_from_spec(spec); spec.loader.exec_module(S)
args = [a for a in sys.argv[1:] if not a.startswith('-')]
PYB = '/opt/venv/bin/python'
def run(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
for s in S.SEEDS:
    if args and s['id'] not in args: continue
    d = os.path.join(V, 'seeded', s['id'])
    w = '/tmp/seedwork_' + s['id']
    run('rm -rf %s && mkdir %s && cp -a /repo/. %s/' % (w, w, w))
    ok = True
    for f, old, new in s['edits']:
        p = os.path.join(w, f); t = open(p).read()
        if t.count(old) != s.get('count', 1): print(s['id'], 'EDIT MISMATCH', t.count(old), repr(old[:50])); ok = False; continue
        open(p, 'w').write(t.replace(old, new))
    if not ok: continue
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(run('git -C %s diff' % w).stdout)
    open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    a = run('bash %s/demo.sh' % d, cwd='/repo')
    b = run('bash %s/demo.sh' % d, cwd=w)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    t = run("PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 %s -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o 'python_files=test_*.py *_test.py hyp_*.py' -o junit_family=xunit2 --junitxml=%s/../junit_%s.xml tests" % (PYB, w, s['id']), cwd=w)
    import xml.etree.ElementTree as ET
    passed = set()
    j = '/tmp/junit_%s.xml' % s['id']
    for c in ET.parse(j).getroot().iter('testcase'):
        if not list(c.iter('failure')) and not list(c.iter('error')): passed.add(c.get('classname') + '::' + c.get('name'))
    miss = base - passed
    os.remove(j); run('rm -rf ' + w)
    print(s['id'], 'unchanged', a.returncode, 'patched', b.returncode, 'tests broken:', sorted(miss)[:4], '' if a.returncode == 0 and b.returncode and not miss else 'BAD ' + a.stderr[-300:] + b.stderr[-200:])
