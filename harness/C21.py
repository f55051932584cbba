"""the same seed and inputs give the same map: effect contracts.

Each contract of the properties C01-C19 that covers a function a generator run executes is run again in effect mode (pyvc/effects.py):
on every path of the real code, for every input of that contract, no branch and no part of the resulting state comes from anything
but the inputs, the package's own state and the seeded random stream.  Functions that pass compose: a run is then a function of
seed, input map and options.  The entry points (seeding, order of the steps, output) have contracts of their own below."""
from pyvc.hapi import Registry, Contract
from hmap import *
from hlib import *
import importlib, os
CONTRACTS = Registry()

PARTS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19']
SAME = {}              # the same contract function appears under several properties: run once
for _p in PARTS:
    for _c in importlib.import_module(_p).CONTRACTS:
        if not _c.sym or _c.name.startswith('kit: ') or id(_c.fn) in SAME or _p == 'C01' and _c.side == 'writer': continue
        SAME[id(_c.fn)] = _c.fn
        _n = Contract('effects of %s: %s' % (_p, _c.name), _c.fn, functions=_c.functions, opts=dict(_c.opts), con=False)
        _n.effects_of = _c.fn
        CONTRACTS.append(_n)


# ------------------------------------------------------------------ entry points

class Sink:
    """a file opened for writing"""
    def __init__(self, name): self.name = name; self.text = []
    def write(self, s): self.text.append(s)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass


class AMap:
    def __init__(self): self.ents = []; self.cfg_extra = ['first line']; self.world = None; self.log = []
    def write(self, path): self.log.append(('write', path, self.world))


class ARoom:
    def __init__(self, log): self.log = log; self.name = 'a room'
    def render(self, world, xmap): self.log.append(('render', self, world, xmap))


def own(name, **k):
    """a contract run in effect mode only"""
    def deco(fn):
        c = Contract(name, fn, con=False, **k)
        c.effects_of = fn
        CONTRACTS.append(c)
        return fn
    return deco


@own('importing the package', functions=['redeclipse/*.py: module bodies'])
def importing(E):
    """module bodies are executed once per run: they seed the stream with constants and consult no other source"""
    from pyvc import effects
    from redeclipse import cli, aftereffects, worldflavors
    from redeclipse.cli import magica_rooms
    h = E.eng.opts['effects']
    for w in effects.IMPORT:
        if isinstance(w, str): h.fail(E.eng, 'a module body consults %s' % w)
        elif not w[1] or w[1][0] is None: h.fail(E.eng, 'a module body seeds the stream with nothing')
    if not any(not isinstance(w, str) for w in effects.IMPORT): h.fail(E.eng, 'no module body seeds the stream')


@own('the steps of a generator run', functions=['redeclipse/cli/magica_rooms.py:main', 'redeclipse/worldflavors.py:update'])
def steps(E):
    """main with its callees as recorders: how it seeds, what it hands to the steps and in which order"""
    from redeclipse.cli import magica_rooms as M
    import redeclipse.worldflavors as W
    log = []
    amap = AMap()
    E.patch(M, 'parse', lambda path: amap)
    class Upm:
        def __init__(self, *a, **k): log.append(('manager', a, k)); self.rooms = [ARoom(log), ARoom(log)]
        def register_room(self, r): log.append(('register', type(r).__name__, r.pos, r.orientation))
        def place_rooms(self, *a, **k): log.append(('place', a, k))
        def endcap(self, *a, **k): log.append(('endcap', a, k))
    E.patch(M, 'UnusedPositionManager', Upm)
    class In: name = 'in.mpz'
    flavor = E.choice('flavor', [None, [], ['maliwan'], list(W.choices)])
    seed = E.int('seed')
    kw = {'size': E.choice('size', [128, 256]), 'rooms': E.int('rooms', 0, 1000), 'debug': E.bool('debug'), 'ctf': E.bool('ctf'), 'mirror': E.choice('mirror', [1, 2, 4]), 'flavor': flavor}
    E.patch(M.random, 'seed', lambda *a: (log.append(('seed',) + a), E.eng.opts['effects'].seed(a))[0])
    out = M.main(In, seed=seed, **kw)
    roots = [out, log, amap]


@own('writing the results of a run', functions=['redeclipse/cli/__init__.py:output'])
def writing(E):
    from redeclipse import cli
    log = []
    amap = AMap()
    amap.cfg_extra = ['line %d' % i for i in range(E.choice('extra', [0, 1, 3]))]
    class Tex:
        def emit_conf(self, f, **k): log.append(('conf', f))
        def copy_data(self): log.append(('copy',))
    class Pre: TEXMAN = Tex()
    class World:
        def to_octree(self): return ['the octree']
    class Args: mpz_out = Sink('out.mpz') if E.bool('map') else None; magica = Sink('out.vox') if E.bool('model') else None; graph = None
    sinks = []
    def op(path, *a, **k):
        sinks.append((path, a, Sink(path))); return sinks[-1][2]
    E.eng.opts['open'] = op
    E.patch(cli, 'to_magicavoxel', lambda *a: log.append(('vox',) + a))
    cli.output(World(), amap, Upm0(), Pre, Args)
    roots = [log, sinks, amap]


class Upm0: rooms = []; links = []


# ------------------------------------------------------------------ bounded: whole runs, twice

def twice(E, opts):
    """two processes that differ in hash seed, clock, host environment, working directory and directory order make the same things"""
    import subprocess, json, os, sys, tempfile
    here = os.path.dirname(os.path.abspath(__file__))
    repo = os.environ.get('PYVC_REPO', '/repo')
    ps = []
    for variant in (0, 1):
        env = dict(os.environ, PYTHONHASHSEED=str(opts['seed'] % 1000 + 1 + variant * 77), PYTHONDONTWRITEBYTECODE='1')
        ps.append(subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(here, 'genrun.py'), repo, json.dumps(opts), str(variant)], env=env,
                                   cwd='/' if variant else tempfile.gettempdir(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
    try: outs = [p.communicate(timeout=80)[0] for p in ps]
    except subprocess.TimeoutExpired:
        for p in ps: p.kill()
        E.assume(False)
    try: a, b = [json.loads(o) for o in outs]
    except ValueError: E.assume(False)
    for x, y in zip(a, b): E.check('the same seed and inputs give the same ' + x[0].split('!')[0].split(' ')[0], x == y, '%s: %s / %s' % (x[0], x, y))
    E.check('the same seed and inputs give the same number of results', len(a) == len(b))


def options(E, sections, **k):
    o = {'seed': E.int('seed', 0, 10 ** 6), 'rooms': 2, 'mirror': E.choice('mirror', [1, 2, 4]), 'ctf': E.bool('ctf'), 'flavor': E.choice('flavor', [None, ['maliwan'], ['space_station', 'crushed_blacks']]),
         'classes': 8, 'sections': sections}
    o.update(k)
    return o


@CONTRACTS('two whole runs', sym=False, weight=2.0, functions=['redeclipse/cli/magica_rooms.py:main', 'redeclipse/cli/__init__.py:output'], opts={'limit': 90, 'min_search': 1})
def whole(E): twice(E, options(E, ['whole'], mirror=E.choice('m', [1, 2])))


@CONTRACTS('two runs of the parts', sym=False, weight=2.0, functions=['all room classes, texture managers, after-effects, room selection'], opts={'limit': 90, 'min_search': 2})
def parts(E): twice(E, options(E, ['rooms', 'textures', 'effects', 'selection']))
