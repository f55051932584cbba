#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo's current tree.

Deciding step: pyvc (the deductive verifier of this directory) executes the real functions of /repo's current source
symbolically against the contracts of harness/<property>.py and discharges every obligation with z3/cvc5.  In parallel the
same contracts are evaluated on the unmodified code (bounded search: cross-check of the verifier, counter-model replay,
and labelled stand-in for contracts the verifier cannot bring within reach)."""
import sys, os, json, subprocess, time, tempfile, shutil, ast, re

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYVC_REPO', '/repo')
PROVER = ['python3-vt', '-W', 'ignore', '-m', 'pyvc.prove']
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
TRUSTED = ['CPython 3.12 semantics of everything the instrumentation leaves in place', 'pyvc: instrumentation (pyvc/instr.py), loop summarisation and symbolic containers (pyvc/rt.py), shims (pyvc/shims.py)',
           'z3 4.x (python3-vt) and cvc5 1.1.2', 'Python floats: arithmetic on dyadic values below 2^53 is exact (magnitudes are checked), other float operations are uninterpreted with IEEE-sound monotonicity axioms',
           'contracts of the standard library: random.* returns any permitted value, math.sin/cos of multiples of pi/2 within 1e-9 (computed), struct/gzip as documented']


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=HERE, PYVC_REPO=REPO)
    work = tempfile.mkdtemp(prefix='pyvc_%s_' % pid)
    try:
        return run(pid, tier, seed, t0, env, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def contract_table(pid, env):
    """names and flags of the contracts (imports the harness on the real code)"""
    code = ("import sys,json,os\nsys.dont_write_bytecode=True\nsys.path[:0]=[%r,%r,%r]\nimport logging; logging.disable(50)\nso=sys.stdout; sys.stdout=open(os.devnull,'w')\n"
            "import %s as h\nsys.stdout=so\nprint(json.dumps([dict(name=c.name,sym=c.sym,con=c.con,functions=c.functions,note=c.note,budget=c.opts.get('budget'),weight=c.weight,side=c.side) for c in h.CONTRACTS]))" % (REPO, HERE, HERE + '/harness', pid))
    p = subprocess.run([PY, '-W', 'ignore', '-c', code], env=env, cwd='/tmp', capture_output=True, text=True, timeout=120)
    if p.returncode: raise RuntimeError(p.stderr[-3000:])
    return json.loads(p.stdout.strip().split('\n')[-1])


def run(pid, tier, seed, t0, env, work):
    thorough = tier == 'thorough'
    try: cs = contract_table(pid, env)
    except Exception as ex:
        print('the harness could not be loaded:\n%s' % ex); return 2
    sym = [c for c in cs if c['sym']]
    con = [c for c in cs if c['con']]
    budget = 900 if thorough else 150
    secs = (240 if thorough else 24)
    pend = []
    for c in sym:
        out = os.path.join(work, 'p%d.json' % len(pend))
        pend.append((c, out, PROVER + [pid, c['name'], out, str(c['budget'] * (6 if thorough else 1) if c['budget'] else budget)]))
    # searches: contracts spread over a few processes
    ng = min(4, len(con)) or 1
    groups = [[] for _ in range(ng)]
    for c in sorted(con, key=lambda c: -c['weight']): min(groups, key=lambda g: sum(x['weight'] for x in g)).append(c)
    searches = []
    for i, g in enumerate(groups):
        if not g: continue
        out = os.path.join(work, 's%d.json' % i)
        searches.append((out, subprocess.Popen([PY, '-W', 'ignore', '-m', 'pyvc.search', pid, out, str(secs / 2), str(seed + i), ','.join(c['name'] for c in g)],
                                               env=env, cwd=work, stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'))))
    running, proofs = [], {}
    queue = list(pend)
    hard = t0 + (5400 if thorough else 560)
    while queue or running:
        while queue and len(running) < 6:
            c, out, cmd = queue.pop(0)
            running.append((c, out, subprocess.Popen(cmd, env=env, cwd=HERE, stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'))))
        time.sleep(0.05)
        for r in list(running):
            c, out, p = r
            if p.poll() is None:
                if time.time() > hard:
                    p.kill(); p.wait()
                else: continue
            running.remove(r)
            try: proofs[c['name']] = json.load(open(out))[0]
            except Exception:
                proofs[c['name']] = {'contract': c['name'], 'status': 'undecided', 'why': 'prover process ended: ' + open(out + '.err').read()[-600:], 'obligations': [], 'functions': c['functions']}
    search = {}
    def collect(lst):
        for out, p in lst:
            try: p.wait(timeout=max(5, (5400 if thorough else 620) - (time.time() - t0)))
            except subprocess.TimeoutExpired: p.kill(); p.wait()
            try: d = json.load(open(out))
            except Exception: d = {'_import': open(out + '.err').read()[-2000:]}
            for k, v in d.items():
                if k in search and isinstance(v, dict) and k != '_import':
                    o = search[k]
                    for f in ('runs', 'skips', 'iface', 'timeouts', 'checks'): o[f] += v[f]
                    o['fails'] += v['fails']
                    o['covered'] = sorted(set(o['covered']) | set(v['covered']))
                else: search[k] = v
    collect(searches)
    # replay of counter-models and a longer search where the verifier objects
    failed = [p for p in proofs.values() if p['status'] == 'failed']
    need = [p for p in failed if not search.get(p['contract'], {}).get('fails') and any(c['name'] == p['contract'] for c in con)]
    if need:
        given = {}
        for p in need:
            for o in p['obligations']:
                if o['status'] == 'failed' and o.get('model') and o['model'].get('inputs'): given.setdefault(p['contract'], []).append(o['model']['inputs'])
        rp = os.path.join(work, 'replay.json')
        json.dump(given, open(rp, 'w'), default=str)
        lst = []
        for i in range(3):
            out = os.path.join(work, 'r%d.json' % i)
            lst.append((out, subprocess.Popen([PY, '-W', 'ignore', '-m', 'pyvc.search', pid, out, str(secs / 2), str(seed * 31 + 1000 + i), ','.join(p['contract'] for p in need)] + ([rp] if i == 0 else []),
                                              env=env, cwd=work, stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'))))
        collect(lst)
    return report(pid, tier, seed, t0, cs, proofs, search)


def load_known(pid):
    try: return [k for k in json.load(open(os.path.join(HERE, 'known-findings.json')))['findings'] if k['property'] == pid and k.get('status') == 'known']
    except FileNotFoundError: return []


def match_known(known, contract, fail):
    for k in known:
        if k['contract'] == contract and k['check'] == fail['check'] and all(fail['inputs'].get(a) in b for a, b in k.get('inputs', {}).items()) \
                and k.get('detail', '') in str(fail['detail']):
            return k
    return None


def report(pid, tier, seed, t0, cs, proofs, search):
    known = load_known(pid)
    viol = []
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for n, s in sorted(search.items()):
        if n == '_import': continue
        for f in s['fails']:
            if match_known(known, n, f): continue
            path = os.path.join(rdir, '%s_%s.json' % (pid, re.sub(r'[^A-Za-z0-9]+', '_', f['check'])[:60]))
            pr = proofs.get(n, {})
            json.dump({'property': pid, 'contract': n, 'obligation': f['check'], 'inputs': f['inputs'], 'detail': f['detail'], 'seed': f['seed'],
                       'how': "%s tools/replay.py %s" % (PY, path), 'verifier': {'status': pr.get('status'), 'failed': [o['name'] for o in pr.get('obligations', []) if o['status'] == 'failed']}},
                      open(path, 'w'), indent=1, default=str)
            viol.append((path, '', n, f['check']))
    hit = {v[2] for v in viol}
    # contracts against a shared format: if the verifier refutes writer and reader, the format itself may have changed
    # consistently, which does not break a round trip; without a failing input the bounded search decides
    side = {c['name']: c['side'] for c in cs}
    bad = [n for n, p in proofs.items() if p['status'] == 'failed' and side.get(n)]
    if {side[n] for n in bad} >= {'writer', 'reader'} and not viol:
        for n in bad: proofs[n] = dict(proofs[n], status='undecided', why='writer and reader both differ from the documented format; the round trip is decided by bounded search')
    for n, p in sorted(proofs.items()):
        if p['status'] != 'failed' or n in hit: continue
        for o in p['obligations']:
            if o['status'] != 'failed': continue
            if any(k['contract'] == n and k['check'] == o['name'] for k in known): continue
            path = os.path.join(rdir, '%s_%s_obligation.json' % (pid, re.sub(r'[^A-Za-z0-9]+', '_', o['name'])[:60]))
            json.dump({'property': pid, 'contract': n, 'failed_obligation': o['name'], 'verifier_output': o, 'note': 'the verifier refutes this obligation; the model did not reproduce on the real code within the search bound'}, open(path, 'w'), indent=1, default=str)
            viol.append((path, ' no-failing-input-found', n, o['name']))
    nob = sum(max(1, o['n']) for p in proofs.values() for o in p['obligations'])
    dis = sum(max(1, o['n']) for p in proofs.values() for o in p['obligations'] if o['status'] == 'discharged')
    undec = {n: p['why'] for n, p in proofs.items() if p['status'] == 'undecided'}
    bounded = sorted([c['name'] for c in cs if not c['sym']] + list(undec))
    byback = {}
    for p in proofs.values():
        for o in p['obligations']:
            if o['status'] == 'discharged':
                k = '+'.join(b for b in o['backend']) or 'path'
                byback[k] = byback.get(k, 0) + 1
    assum = sorted({a for p in proofs.values() for a in p.get('assumptions', [])} | {c['note'] for c in cs if c['note']})
    sys.path.insert(0, HERE)
    import assumptions
    assum = assumptions.A.get(pid, []) + [a for a in assum if a not in assumptions.A.get(pid, [])]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof' if proofs else 'exploration',
          'coverage': {
              'obligations': nob + len(undec), 'discharged': dis,
              'checker_cmd': 'python3-vt -m pyvc.prove %s <contract> <out.json>  (run by check.py on /repo as it is now)' % pid,
              'trusted_base': TRUSTED,
              'named_obligations': sum(len(p['obligations']) for p in proofs.values()),
              'discharged_by': byback,
              'solver_seconds': round(sum(p.get('solver_s', 0) for p in proofs.values()), 2),
              'solver_calls': sum(p.get('solver_calls', 0) for p in proofs.values()),
              'paths': sum(p.get('paths', 0) or 0 for p in proofs.values()),
              'loops_summarised': sum(p.get('summaries', 0) or 0 for p in proofs.values()),
              'contracts': {c['name']: {'verdict': proofs[c['name']]['status'] if c['name'] in proofs else 'bounded only', 'functions': c['functions'],
                                        'obligations': [o['name'] for o in proofs.get(c['name'], {}).get('obligations', [])]} for c in cs},
              'written_for_other_functions': sorted(n for n, s in search.items() if n != '_import' and s['iface'] and s['iface'] == s['runs'] and n in undec),
              'bounded_not_proved': {n: undec.get(n, 'bounded stand-in by design') for n in bounded},
              'evaluations': sum(s['runs'] for n, s in search.items() if n != '_import'),
              'distinct_nontrivial': sum(s['runs'] - s['skips'] for n, s in search.items() if n != '_import'),
              'rule': 'bounded search on the uninstrumented code: random inputs with edge bias per contract; non-trivial = the contract precondition held (not skipped)',
              'samples': [{'contract': n, 'runs': s['runs'], 'checks': s['checks'], 'timeouts': s['timeouts']} for n, s in sorted(search.items()) if n != '_import'][:40],
          },
          'assumptions': assum, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', pid + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1, default=str)
    os.replace(tmp, os.path.join(HERE, 'evidence', pid + '.json'))
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    print('%s: %d contracts, %d/%d obligations discharged, %d contract(s) bounded only %s, %d concrete evaluations, %.1fs'
          % (pid, len(cs), dis, nob + len(undec), len(bounded), bounded if bounded else '', ev['coverage']['evaluations'], time.time() - t0))
    for n, w in undec.items(): print('  undecided by the verifier (bounded instead): %s: %s' % (n, str(w)[:300]))
    for path, tail, n, o in viol: print('  contract %r, obligation %r' % (n, o))
    for path, tail, n, o in viol[:1]: print('VIOLATION property=%s replay=%s%s' % (pid, path, tail))
    if viol: return 1
    if '_import' in search:
        print('harness could not be loaded:\n' + str(search['_import'])); return 2
    # contracts about private functions which are gone or take other arguments say nothing about this code; the other contracts decide
    gone = [n for n, s in search.items() if s['iface'] and s['iface'] == s['runs'] and n in undec]
    if gone: print('  written for a different division into functions, not decided: %s' % gone)
    dead = [n for n, s in search.items() if s['runs'] - s['skips'] - s['timeouts'] <= 0 and n in undec and n not in gone]
    if gone and not any(p['status'] == 'proved' or n in search and search[n]['checks'] for n, p in proofs.items() if n not in gone): dead += gone
    if dead:
        print('no verdict for %s' % dead); return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
