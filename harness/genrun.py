"""genrun.py <repo> <json options> <variant>: one generator run in a process of its own; prints the digest of everything it makes.
variant 1 differs from variant 0 in what must not matter: clock, host environment, directory order (and, set by the caller, hash seed,
working directory).  Nothing is written to disk: the files a run writes are caught in memory."""
import sys, os, json, io, hashlib, random
repo, opts, variant = sys.argv[1], json.loads(sys.argv[2]), int(sys.argv[3])
sys.dont_write_bytecode = True
sys.path.insert(0, repo)
out = sys.stdout
sys.stdout = open(os.devnull, 'w'); sys.stderr = open(os.devnull, 'w') if not os.environ.get('GENRUN_DEBUG') else sys.stderr
if variant:
    import time, datetime
    for n in ('time', 'monotonic', 'perf_counter', 'process_time'):
        setattr(time, n, (lambda f: lambda: f() + 98765432.1)(getattr(time, n)))
    for n in ('time_ns', 'monotonic_ns', 'perf_counter_ns'):
        setattr(time, n, (lambda f: lambda: f() + 98765432100000007)(getattr(time, n)))
    class DT(datetime.datetime):
        @classmethod
        def now(cls, tz=None): return datetime.datetime.__mro__[0].fromtimestamp(time.time(), tz)
    real_dt = datetime.datetime
    DT.now = classmethod(lambda cls, tz=None: real_dt.fromtimestamp(time.time(), tz))
    DT.utcnow = DT.today = classmethod(lambda cls: real_dt.fromtimestamp(time.time()))
    class D(datetime.date):
        today = classmethod(lambda cls: real_dt.fromtimestamp(time.time()).date())
    datetime.datetime, datetime.date = DT, D
    for k in ('HOME', 'USER', 'LOGNAME', 'HOSTNAME', 'TZ', 'LANG', 'PWD'): os.environ[k] = 'other-%s' % k if k != 'TZ' else 'Asia/Tokyo'
    ld = os.listdir
    os.listdir = lambda *a: list(reversed(sorted(ld(*a))))
import logging
logging.disable(logging.CRITICAL)
import gzip, builtins
files = {}


class Keep(io.BytesIO):
    def close(self): files[self.path] = self.getvalue(); io.BytesIO.close(self)
    def __exit__(self, *a): self.close()


class KeepT(io.StringIO):
    def close(self): files[self.path] = files.get(self.path, b'') + self.getvalue().encode('utf8', 'surrogateescape'); io.StringIO.close(self)
    def __exit__(self, *a): self.close()


def keep(path, cls):
    f = cls(); f.path = path; f.name = path
    return f


_gz, _op = gzip.open, builtins.open
gzip.open = lambda p, mode='rb', *a, **k: keep(p, Keep) if 'w' in mode else _gz(p, mode, *a, **k)
builtins.open = lambda p, mode='r', *a, **k: (keep(p, KeepT) if 'b' not in mode else keep(p, Keep)) if any(c in mode for c in 'wax+') and p != os.devnull else _op(p, mode, *a, **k)

report = []
def digest(name, *data):
    h = hashlib.sha1()
    for d in data: h.update(d if isinstance(d, bytes) else repr(d).encode('utf8', 'replace'))
    report.append((name, h.hexdigest()))


def cubekey(c):
    return [getattr(c, a, None) for a in ('octsav', 'texture', 'material', 'merged', 'edges')] if c is not None else None


def world(v):
    out = []
    for k, c in v.world.items(): out.append((repr(k), [repr(x) for x in cubekey(c)]))
    return sorted(out)


def ents(m): return [[float(e.o.x), float(e.o.y), float(e.o.z), int(getattr(e.type, 'value', e.type)), [repr(a) for a in e.attrs], list(getattr(e, 'links', []))] for e in m]


def section(name, fn):
    random.seed(opts['seed'])
    try: fn()
    except Exception as ex:
        if os.environ.get('GENRUN_DEBUG'): import traceback; traceback.print_exc()
        digest(name + '!raised', type(ex).__name__)


import redeclipse
from redeclipse import prefabs, textures, aftereffects, upm as U
from redeclipse.vector import CoarseVector, FineVector
from redeclipse.voxel import VoxelWorld
MANAGERS = [getattr(textures, n) for n in dir(textures) if isinstance(getattr(textures, n), type) and hasattr(getattr(textures, n), 'emit_conf')]
for m in MANAGERS: m.copy_data = lambda self: None


def whole():
    from redeclipse import cli
    from redeclipse.cli import magica_rooms as M
    class Args: pass
    a = Args()
    a.magica = keep('run.vox', Keep); a.graph = None
    a.mpz_out = keep('run.mpz', KeepT)
    class In: name = os.path.join(repo, 'maps', 'empty2.mpz')
    v, mymap, upm = M.main(In, size=2 ** 8, seed=opts['seed'], rooms=opts['rooms'], ctf=opts['ctf'], mirror=opts['mirror'], flavor=opts['flavor'])
    digest('rooms', [(type(r).__name__, str(r.pos), str(r.orientation)) for r in upm.rooms], [str(x) for x in upm.links])
    digest('entities', ents(mymap.ents))
    cli.output(v, mymap, upm, prefabs, a)
    digest('conf', a.mpz_out.getvalue())
    digest('vox', a.magica.getvalue())
    for k in sorted(files): digest('file ' + os.path.basename(str(k)), files[k])


def rooms():
    import importlib
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import inspect
    from redeclipse.prefabs import castle, spacestation, egypt, dungeon, original
    cs = []
    for m in (prefabs, castle, spacestation, egypt, dungeon, original):
        for n, c in sorted(vars(m).items()):
            if inspect.isclass(c) and issubclass(c, prefabs.Room) and c.__module__ == m.__name__ and not n.startswith('_') and n != 'TestRoom2' and (m is prefabs or getattr(c, 'vox_file', None)): cs.append(c)
    small = [c for c in cs]
    for c in [small[(opts['seed'] * 7 + i * 5) % len(small)] for i in range(opts['classes'])]:
        def one(c=c):
            kw = c.randOpts(None) if hasattr(c, 'randOpts') else {}
            r = c(pos=CoarseVector(6, 6, 3), orientation=random.choice(U.CARDINALS), **kw)
            v = VoxelWorld(size=256)
            class Map: pass
            m = Map(); m.ents = []
            r.render(v, m)
            digest('room ' + c.__name__, world(v), ents(m.ents), [str(p) for p in r.get_positions()], [str(d) for d in r.get_doorways()])
        section('room ' + c.__name__, one)


def texs():
    for M in sorted(MANAGERS, key=lambda c: c.__name__):
        def one(M=M):
            t = M()
            ns = []
            for i in range(60):
                for f, args in (('get', (random.choice(sorted(t.texref)),)), ('get_c', (random.choice(['generic', 'column', 'floor', 'wall', 'accent', 'zzz']),)), ('get_colour', (i % 7 / 8, i % 5 / 8, 0.5))):
                    try: ns.append(getattr(t, f)(*args))
                    except Exception as ex: ns.append(type(ex).__name__)
            s = keep('t.cfg', KeepT)
            try: t.emit_conf(s)
            except Exception as ex: ns.append(type(ex).__name__)
            digest('textures ' + M.__name__, ns, s.getvalue(), [f.decode('utf8', 'replace') for k, f in sorted(files.items()) if str(k).endswith('t.cfg')])
        section('textures ' + M.__name__, one)


def effects():
    import inspect
    for n, f in sorted(vars(aftereffects).items()):
        if not inspect.isfunction(f) or f.__module__ != aftereffects.__name__: continue
        def one(f=f):
            v = VoxelWorld(size=16)
            for i in range(40): v.set_point(random.randint(0, 15), random.randint(0, 15), random.randint(0, 15), redeclipse.objects.cube.newtexcube(tex=1 + i % 3))
            ps = list(inspect.signature(f).parameters)
            if ps[:3] == ['x', 'y', 'z']: digest('effect ' + f.__name__, [f(3, 5, z) for z in range(0, 256, 5)]); return
            if ps[1:2] == ['position_function']: f(v, lambda x, y, z: (x + y + z) % 7 / 7)
            elif ps[1:2] == ['upm']:
                class Upm: unoccupied = [{'offset': CoarseVector(i, 1, 0)} for i in range(2)]
                f(v, Upm)
            else: f(v)
            digest('effect ' + f.__name__, world(v))
        section('effect ' + n, one)


def selection():
    from redeclipse.prefabs import castle
    upm = U.UnusedPositionManager(256, mirror=opts['mirror'])
    upm.register_room(prefabs.AltarRoom(pos=CoarseVector(8, 8, 3), orientation=prefabs.EAST))
    rs = [c for c in (castle.castle_gate, castle.castle_gate_simple, castle.castle_large, prefabs.Corridor2way, prefabs.AltarRoom) ]
    upm.place_rooms(False, rs, rooms=12)
    upm.endcap(debug=False, possible_endcaps=[castle.castle_wall_end_cliff, castle.castle_wall_section_endcap, prefabs.AltarRoom])
    digest('selection', [(type(r).__name__, str(r.pos), str(r.orientation)) for r in upm.rooms], [str(x) for x in upm.links], [[(k, str(v)) for k, v in sorted(x.items()) if k != "room"] if isinstance(x, dict) else [str(v) for v in x if not isinstance(v, prefabs.Room)] for x in upm.unoccupied])


for name in opts['sections']:
    {'whole': lambda: section('whole', whole), 'rooms': rooms, 'textures': texs, 'effects': effects, 'selection': lambda: section('selection', selection)}[name]()
out.write(json.dumps(report) + '\n')
out.flush()
