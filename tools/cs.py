#!/usr/bin/env python3
"""developer tool: bounded search of one harness on the real code.  cs.py C05 [contract-substr] [seconds per contract]"""
import sys, os, importlib, time, collections
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get('PYVC_REPO', '/repo'), H, H + '/harness']
out = os.fdopen(os.dup(1), 'w')
sys.stdout = open(os.devnull, 'w'); os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
import logging; logging.disable(50)
from pyvc import search
try: h = importlib.import_module(sys.argv[1])
except Exception:
    import traceback
    print(traceback.format_exc(), file=out); sys.exit(2)
only = sys.argv[2] if len(sys.argv) > 2 else ''
lim = float(sys.argv[3]) if len(sys.argv) > 3 else 5
for c in h.CONTRACTS:
    if only not in c.name or not c.con: continue
    t = time.time(); cnt = collections.Counter(); cov = set(); k = 0; seen = set()
    while time.time() - t < lim and len(seen) < 3:
        r, E = search.run_one(c, k); k += 1
        cnt[r[0]] += 1; cov |= E.covered
        if r[0] == 'fail' and r[1] not in seen: seen.add(r[1]); print('   FAIL seed', k - 1, r[1], str(r[2])[:700], str(E.rec)[:600], file=out)
    print(c.name, dict(cnt), sorted(cov), file=out)
    out.flush()
