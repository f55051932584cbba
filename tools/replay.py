#!/usr/bin/env python3
"""replay.py <replay.json>: run the recorded failing input against the real code in /repo"""
import sys, json, os, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = ['/repo', H, H + '/harness']
d = json.load(open(sys.argv[1]))
from pyvc import search
h = importlib.import_module(d['property'])
c = [c for c in h.CONTRACTS if c.name == d['contract']][0]
r, E = search.run_one(c, d.get('seed', 1), d.get('inputs'))
print(r); print(json.dumps(E.rec, default=str))
sys.exit(1 if r[0] == 'fail' else 0)
