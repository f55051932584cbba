#!/usr/bin/env python3
"""developer tool: prove the contracts of one harness and print the result.  pv.py C05 [contract] [budget]"""
import sys, json, subprocess, os, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mod = sys.argv[1]; only = sys.argv[2] if len(sys.argv) > 2 else ''; budget = sys.argv[3] if len(sys.argv) > 3 else '60'
code = "import sys; sys.path.insert(0,'%s'); sys.path.insert(0,'%s/harness')\nfrom pyvc import shims; shims.install()\nimport %s; print('\\n'.join(c.name for c in %s.CONTRACTS if c.sym))" % (H, H, mod, mod)
names = subprocess.run(['python3-vt', '-W', 'ignore', '-c', code], capture_output=True, text=True)
if names.returncode: print(names.stderr); sys.exit(1)
for n in names.stdout.strip().split('\n'):
    if only and only not in n: continue
    out = tempfile.mktemp()
    p = subprocess.run(['python3-vt', '-W', 'ignore', '-m', 'pyvc.prove', mod, n, out, budget], cwd=H, capture_output=True, text=True)
    if p.returncode or not os.path.exists(out): print(n, 'CRASH', p.stderr[-2000:]); continue
    for r in json.load(open(out)):
        bad = [o for o in r['obligations'] if o['status'] != 'discharged']
        print('%-40s %-9s obl=%d checks=%d paths=%s runs=%s summ=%s solver=%ss/%s wall=%ss' % (n, r['status'], len(r['obligations']), sum(o['n'] for o in r['obligations']), r.get('paths'), r.get('runs'), r.get('summaries'), r.get('solver_s'), r.get('solver_calls'), r.get('wall_s')))
        if r['why']: print('   why:', r['why']); 
        if r.get('tb') and '-q' not in sys.argv: print('   ', r['tb'].replace('\n', '\n    '))
        for o in bad: print('   %s %s %s %s' % (o['status'], o['name'], str(o['detail'])[:300], str(o['model'])[:600]))
        if p.stdout and '-v' in sys.argv: print(p.stdout[-6000:])
    os.unlink(out)
