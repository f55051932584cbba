"""Systematic mutants of the functions under contract: which of those that pass the tests do the checks let through?
usage: /opt/venv/bin/python mutants.py OUT.jsonl [per_function] [workers] [seed] [file-substring ...]
Every mutant lives in a scratch copy under /tmp; stage 1: the repository's tests; stage 2: the bounded search of the properties the
function belongs to; stage 3: check.py of those properties.  What is left is written with its diff, to be read by a person: equivalent
mutants, behaviour outside every property, or a gap."""
import ast, sys, os, json, random, subprocess, copy, shutil, multiprocessing as mp, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.FloorDiv, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def fnmap():
    code = ("import sys,json,importlib,logging,os\nsys.dont_write_bytecode=True\nsys.path[:0]=[%r,%r,%r]\nlogging.disable(50)\nso=sys.stdout; sys.stdout=open(os.devnull,'w')\nm={}\n"
            "for i in range(1,23):\n    h=importlib.import_module('C%%02d'%%i)\n    for c in h.CONTRACTS:\n        for f in c.functions: m.setdefault(f,set()).add('C%%02d'%%i)\nsys.stdout=so\nprint(json.dumps({k:sorted(v) for k,v in m.items()}))" % (V, REPO, V + '/harness'))
    return json.loads(subprocess.run([PY, '-W', 'ignore', '-c', code], capture_output=True, text=True).stdout.strip().split('\n')[-1])


def variants(fn):
    """(description, mutated copy of the function node)"""
    for i, n in enumerate(ast.walk(fn)):
        def alt(edit, what):
            c = copy.deepcopy(fn)
            m = list(ast.walk(c))[i]
            edit(m)
            return ('line %d: %s' % (getattr(n, 'lineno', 0), what), c)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            yield alt(lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]()), 'comparison')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            yield alt(lambda m: setattr(m, 'op', BIN[type(m.op)]()), 'operator')
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            yield alt(lambda m: setattr(m, 'value', m.value + 1), 'constant+1')
            yield alt(lambda m: setattr(m, 'value', m.value - 1), 'constant-1')
        if isinstance(n, ast.Constant) and type(n.value) is bool: yield alt(lambda m: setattr(m, 'value', not m.value), 'flag')
        if isinstance(n, ast.BoolOp): yield alt(lambda m: setattr(m, 'op', ast.And() if isinstance(m.op, ast.Or) else ast.Or()), 'and/or')
        if isinstance(n, ast.BoolOp): yield alt(lambda m: m.values.pop(), 'operand dropped')
        if isinstance(n, ast.If): yield alt(lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)), 'condition negated')
        if isinstance(n, ast.If): yield alt(lambda m: setattr(m, 'test', ast.Constant(False)), 'condition false')
        if isinstance(n, ast.If): yield alt(lambda m: setattr(m, 'test', ast.Constant(True)), 'condition true')
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not isinstance(n.func, ast.Name): yield alt(lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1]), 'arguments swapped')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower is not None: yield alt(lambda m: setattr(m.slice, 'lower', None), 'slice')
        if hasattr(n, 'body') and isinstance(n.body, list):
            for k, s in enumerate(n.body):
                if isinstance(s, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.Raise)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and 'log' not in ast.unparse(s)[:6]:
                    yield alt(lambda m: m.body.__setitem__(k, ast.Pass()), 'statement %r dropped' % ast.unparse(s)[:40])


def functions(tree, pre):
    for n in tree.body:
        if isinstance(n, ast.ClassDef): yield from functions(n, pre + '.' + n.name)
        elif isinstance(n, ast.FunctionDef): yield pre + '.' + n.name, n


def mutants(per, seed, want):
    fm = fnmap()
    rng = random.Random(seed)
    out = []
    for d, _, fs in sorted(os.walk(REPO + '/redeclipse')):
        for f in sorted(fs):
            p = os.path.join(d, f); rel = os.path.relpath(p, REPO)
            if not f.endswith('.py') or f.endswith('_test.py') or (want and not any(w in rel for w in want)): continue
            mod = rel[:-3].replace('/', '.').replace('.__init__', '')
            src = open(p).read()
            tree = ast.parse(src)
            for q, n in functions(tree, mod):
                cls = q.split('.')[-2]
                name = q.split('.')[-1]
                ps = set(fm.get(q, [])) | (set(fm.get(q[:-len(name)] + '_' + cls + name, [])) if name.startswith('__') else set())
                ps -= {'C21'}
                if not ps: continue
                vs = list(variants(n))
                rng.shuffle(vs)
                for what, c in vs[:per]:
                    lines = src.split('\n')
                    body = ast.unparse(ast.fix_missing_locations(c)).split('\n')
                    a = (n.decorator_list[0].lineno if n.decorator_list else n.lineno) - 1
                    new = lines[:a] + [' ' * n.col_offset + l if l else l for l in body] + lines[n.end_lineno:]
                    old = ast.unparse(n).split('\n')
                    out.append({'id': len(out), 'file': rel, 'fn': q, 'what': what, 'props': sorted(ps), 'text': '\n'.join(new),
                                'diff': '\n'.join(l for l in difflib.unified_diff(old, body, lineterm='', n=1) if not l.startswith(('---', '+++')))})
    return out


def work(m):
    w = '/tmp/mm_%d' % os.getpid()
    if not os.path.isdir(w): shutil.copytree(REPO, w, symlinks=True)
    p = os.path.join(w, m['file'])
    open(p, 'w').write(m['text'])
    r = dict(m); del r['text']
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYVC_REPO=w, PYTHONPATH=V)
    try:
        try: t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=w, env=env, capture_output=True, text=True, timeout=60).returncode
        except subprocess.TimeoutExpired: t = 9
        if t: r['killed'] = 'tests'; return r
        for pid in m['props']:
            o = '/tmp/mm_%d.json' % os.getpid()
            if os.path.exists(o): os.remove(o)
            try: subprocess.run([PY, '-W', 'ignore', '-m', 'pyvc.search', pid, o, '5', '1'], cwd='/tmp', env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
            except subprocess.TimeoutExpired: pass
            try: d = json.load(open(o))
            except Exception: d = {}
            bad = '_import' in d or [f['check'] for k, v in d.items() if k != '_import' for f in v['fails']]
            if bad: r['killed'] = 'search %s %s' % (pid, bad if bad is True else bad[:2]); return r
        for pid in m['props']:
            c = subprocess.run(['python3', 'check.py', pid], cwd=V, env=dict(env, VERIF_TIER='quick', VERIF_SEED='1'), capture_output=True, text=True)
            if c.returncode: r['killed'] = 'check %s rc=%d %s' % (pid, c.returncode, ' '.join(l for l in c.stdout.split('\n') if 'contract ' in l)[:200]); return r
            r.setdefault('notes', []).append(c.stdout[-600:])
        r['killed'] = ''
        return r
    finally:
        shutil.copy(os.path.join(REPO, m['file']), p)


def main():
    out, per, nw, seed = sys.argv[1], int((sys.argv + ['3'] * 4)[2]), int((sys.argv + ['3'] * 4)[3]), int((sys.argv + ['1'] * 5)[4])
    ms = mutants(per, seed, sys.argv[5:])
    print(len(ms), 'mutants', flush=True)
    with mp.Pool(nw) as pool, open(out, 'w') as f:
        for r in pool.imap_unordered(work, ms, chunksize=1):
            f.write(json.dumps(r) + '\n'); f.flush()
    subprocess.run("for d in /tmp/mm_[0-9]*; do rm -rf \"$d\"; done", shell=True)


if __name__ == '__main__': main()
