"""Edits of /repo that keep its behaviour; the checks must stay quiet on them.
usage: refactors.py [name-substring ...]   (works on scratch copies under /tmp, removed afterwards)"""
import os, sys, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []
def ref(name, props, edits): R.append((name, props.split(), edits))
exec(open(os.path.join(V, 'tools', 'refactor_list.py')).read())
def run(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
want = sys.argv[1:]
for name, props, edits in R:
    if want and not any(w in name for w in want): continue
    w = '/tmp/ref_' + name
    run('rm -rf %s && cp -a /repo %s' % (w, w))
    ok = True
    for f, old, new in edits:
        p = os.path.join(w, 'redeclipse', f); t = open(p).read()
        if t.count(old) != 1: print(name, 'EDIT MISMATCH', t.count(old), repr(old[:60])); ok = False; continue
        open(p, 'w').write(t.replace(old, new))
    if ok:
        t = run("PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests", cwd=w).stdout.strip().splitlines()
        for p in props:
            t0 = time.time()
            try: r = run('python3 check.py ' + p, cwd=V, env=dict(os.environ, PYVC_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'), timeout=900); o, rc = r.stdout + r.stderr, r.returncode
            except subprocess.TimeoutExpired: o, rc = '', 'TIMEOUT'
            print('%-22s %s rc=%s %ds %s | %s' % (name, p, rc, time.time() - t0, '' if rc == 0 else 'ALARM ' + ' '.join(l for l in o.splitlines() if 'contract' in l or 'VIOL' in l)[:500], ' '.join(o.strip().splitlines()[-1:])[:200]), flush=True)
        print(name, 'tests:', t[-1] if t else '?', flush=True)
    run('rm -rf ' + w)
