"""every room draws inside the tiles it claims; its doors lead out of it.

The shapes a room draws are seen through the contracts of the construction kit (proved here too, contracts 'kit: ...'):
x(shape, world, ...) changes only voxels of the turned image of the shape's box."""
from pyvc.hapi import Registry, Contract
from hlib import *
import importlib, inspect, itertools, struct as _struct, random as _rnd
from redeclipse import prefabs as P
from redeclipse.prefabs import magica, castle, spacestation, egypt, dungeon, original
import C09, C10
CONTRACTS = Registry()
NAMES = ['EAST', 'NORTH', 'WEST', 'SOUTH']
KIT = P.ConstructionKitMixin
NOT_GENERATED = {'TestRoom2'}            # drawing-kit demonstration, never offered to the generator
MODEL_MODULES = [castle, spacestation, egypt, dungeon, original]


def rooms(mods):
    out = []
    for m in mods:
        for n, c in sorted(vars(m).items()):
            if inspect.isclass(c) and issubclass(c, P.Room) and c.__module__ == m.__name__ and not n.startswith('_') and n not in NOT_GENERATED: out.append(c)
    return out


PROCEDURAL = rooms([P])
MODELLED = [c for c in rooms(MODEL_MODULES) if c.vox_file]


def flags_of(c):
    f = getattr(c, '_randflags', None)
    return [None] if f is None else [None] + [list(t) for t in itertools.product([True, False], repeat=len(f))]


class Bad(Exception): pass


class Recorder:
    """the world handed to render: remembers what is set or cleared.  Boxes are room-local, points are absolute"""
    def __init__(self): self.boxes = []; self.points = []; self.solid = []; self.blocked = set()
    def set_point(self, x, y, z, value): self.points.append((x, y, z)); self.solid.append(True)
    def del_point(self, x, y, z): self.points.append((x, y, z)); self.solid.append(False)
    def set_pointv(self, v, value): self.set_point(v.x, v.y, v.z, value)
    def del_pointv(self, v): self.del_point(v.x, v.y, v.z)


class XMap:
    def __init__(self): self.ents = []


def voxels(v):
    """the components of a vector in voxels"""
    return tuple(a * 8 for a in xyz(v)) if type(v) is CoarseVector else xyz(v)


def add3(a, b): return tuple(p + q for p, q in zip(a, b))
WALL = {'EAST': ((7, 0, 0), 0), 'WEST': ((0, 0, 0), 0), 'NORTH': ((0, 7, 0), 1), 'SOUTH': ((0, 0, 0), 1)}


def b_cube(offset): return voxels(offset), (1, 1, 1)
def b_rectangular_prism(offset, size): return voxels(offset), xyz(size)
def b_floor(offset, size=8): return voxels(offset), (size, size, 1)
def b_ceiling(offset, size=8): return add3(voxels(offset), (0, 0, 7)), (size, size, 1)
def b_ring(offset, size): return voxels(offset), (size, size, 1)
def b_low_wall(offset, face): return b_wall(offset, face, 3)
def b_wall(offset, face, limit_j=8):
    for n, (d, ax) in WALL.items():
        if xyz(face) == UNIT[n]: return add3(voxels(offset), d), ((1, 8, limit_j) if ax == 0 else (8, 1, limit_j))
    return None
def b_column(offset, direction, length):
    for n, u in UNIT.items():
        if xyz(direction) == u:
            return add3(voxels(offset), tuple((1 - length) if c < 0 else 0 for c in u)), tuple(length if c else 1 for c in u)
    return None
def b_dotted_column(offset, direction, length, on=2, off=2): return b_column(offset, direction, length)
SHAPES = {n[2:]: f for n, f in globals().items() if n.startswith('b_')}


def kit_by_contract(self, shape, world, *args, **kw):
    """contract of ConstructionKitMixin.x: only voxels of the (turned) box of the shape change"""
    from pyvc import core
    if shape not in SHAPES or getattr(type(self), 'x_' + shape, None) is not getattr(KIT, 'x_' + shape, None): raise core.Unsupported('shape %r has no contract' % (shape,))
    if type(world) is not Recorder: raise core.Unsupported('drawing into another world')
    cut = kw.get('subtract', False)
    kw = {k: v for k, v in kw.items() if k not in ('tex', 'subtract', 'prob')}
    b = SHAPES[shape](*args, **kw)
    if b is None: raise core.Unsupported('direction %r has no contract' % (args,))
    o, n = b
    core.ENG.check('%s: the kit is asked for a shape its contract covers' % NOW[0], core.and_(*[c >= (0 if shape in ('rectangular_prism', 'column', 'dotted_column') else 1) for c in n]))
    inside_claimed(core.ENG.S, o, n)
    in_doorways(core.ENG, world, shape, o, n, cut)


# the name of the room type, its claimed tiles (room-local), the middles of its doorways (room-local boxes)
NOW = ['', None, []]
RANDOM_POLES = {'PoleRoom'}              # its poles stand anywhere, in front of its doors too
EXACT = {'cube', 'rectangular_prism', 'floor', 'ceiling', 'wall', 'low_wall', 'column'}


def doorway(tile, u):
    """the middle of a doorway, as a box: the outermost layer of the tile, voxels 2..5 across and 1..4 up"""
    o, n = [2, 2, 1], [4, 4, 4]
    ax = 0 if u[0] else 1
    o[ax], n[ax] = (7 if u[ax] > 0 else 0), 1
    return add3(tuple(8 * t for t in tile), o), tuple(n)


def cells(o, n): return set(itertools.product(*[range(int(a), int(a + m)) for a, m in zip(o, n)]))


def in_doorways(ENG, world, shape, o, n, cut):
    """a box drawn in the doorways: remembered voxel by voxel, or (a box of unknown place or size) shown to miss them all"""
    E = ENG.S
    if all(isinstance(c, (int, float)) for c in o + n):
        for k, (p, m) in enumerate(NOW[2]):
            lo = tuple(max(a, b) for a, b in zip(o, p))
            hi = tuple(min(a + c, b + d) for a, c, b, d in zip(o, n, p, m))
            got = {(k, c) for c in cells(lo, tuple(b - a for a, b in zip(lo, hi)))}
            if cut is not True: world.blocked |= got
            elif shape in EXACT and not ENG.loopstack: world.blocked -= got
    elif cut is not True and NOW[2]:
        E.check('%s: nothing drawn stands in the middle of a doorway' % NOW[0],
                E.And(*[E.Or(*[E.Or(a + c <= b, b + d <= a) for a, c, b, d in zip(o, n, p, m)]) for p, m in NOW[2]]))


def inside_claimed(E, o, n):
    """obligation: the room-local box lies in the room-local claimed tiles"""
    tiles = NOW[1]
    if all(isinstance(c, (int, float)) for c in o + n):
        bad = None
        if all(c > 0 for c in n):
            ts = itertools.product(*[range(int(a // 8), int((a + m - 1) // 8) + 1) for a, m in zip(o, n)])
            bad = [t for t in ts if t not in tiles]
        E.check('%s: everything drawn lies in a claimed tile' % NOW[0], not bad, 'box %s %s leaves the claimed tiles at %s' % (o, n, bad))
        return
    r = tuple(E.int('drawn.' + a, -(1 << 12), 1 << 12) for a in 'xyz')
    E.check('%s: everything drawn lies in a claimed tile' % NOW[0],
            E.Implies(E.And(*[E.And(a <= c, c < a + m) for c, a, m in zip(r, o, n)]),
                      E.Or(*[E.And(*[E.And(8 * t <= c, c < 8 * t + 8) for c, t in zip(r, tile)]) for tile in tiles])))


def plain(c):
    """a difference which does not depend on the position, as a plain number (or None)"""
    if isinstance(c, (int, float)): return int(c) if c == int(c) else c
    return None


def model_of(path):
    """the voxels and colours of a .vox file, read independently; colours renumbered 0..m-1 in order of use"""
    data = open(path, 'rb').read()
    vox, pal, i = [], None, 20
    while i < len(data):
        tag, n, m = data[i:i + 4], *_struct.unpack_from('<ii', data, i + 4)
        body = data[i + 12:i + 12 + n]
        if tag == b'XYZI': vox = [tuple(body[4 + 4 * k:8 + 4 * k]) for k in range(_struct.unpack_from('<i', body)[0])]
        if tag == b'RGBA': pal = [tuple(body[4 * k:4 * k + 4]) for k in range(256)]
        i += 12 + n
    used = sorted({v[3] for v in vox})
    num = {c: k for k, c in enumerate(used)}
    return Rec(model_voxels=Rec(voxels=[Rec(x=x, y=y, z=z, c=num[c]) for x, y, z, c in vox]),
               palette=Rec(colours=[Rec(r=pal[c][0], g=pal[c][1], b=pal[c][2], a=pal[c][3]) for c in used]))


class Rec:
    def __init__(self, **k):
        for a, b in k.items(): object.__setattr__(self, a, b)


class Reader:
    @staticmethod
    def from_file(path): return MODELS(path)


_cache = {}
def MODELS(path):
    if path not in _cache: _cache[path] = model_of(path)
    return _cache[path]


def judge(E, cls):
    nm = NOW[0] = cls.__name__
    d = E.choice('orientation', NAMES)
    fl = E.choice('flags', flags_of(cls))
    B = 1 << 16
    pos = tuple(E.int('pos.' + a, -B if E.sym else -5, B if E.sym else 40) for a in 'xyz')
    if E.sym and cls in MODELLED: E.patch(magica, 'Magicavoxel', Reader)
    lights = []
    def light(xmap, position, colour_override=None, autocenter=True, size_factor=1):     # adds only a light (C18), at:
        lights.append(tuple(a + (b if autocenter else 0) for a, b in zip(voxels(position), (4, 4, 4))))
    E.patch(P.LIGHTMAN, 'light', light)
    E.patch(P.TEXMAN, 'get_c', lambda *a, **k: 2)                  # a texture number (C15)
    E.patch(P.TEXMAN, 'get_colour', lambda *a, **k: 2)
    room = cls(pos=CoarseVector(*pos), orientation=card(d), randflags=fl)
    base = pos
    ways = []
    tiles = [tuple(plain(a - b) for a, b in zip(xyz(p), base)) for p in room.get_positions()]
    E.check('%s: claimed tiles are whole tiles of the room' % nm, all(None not in t and all(isinstance(c, int) for c in t) for t in tiles))
    E.check('%s: the claimed tiles are distinct' % nm, len(set(tiles)) == len(tiles) and len(tiles) > 0)
    claimed = set(tiles)
    for door in room.get_doorways():
        q = tuple(plain(a - b) for a, b in zip(xyz(door['offset']), base))
        u = tuple(plain(a) for a in xyz(door['orientation']))
        E.check('%s: a door faces one of the four directions' % nm, u in [UNIT[x] for x in NAMES])
        E.check('%s: a door leads to a tile the room does not claim' % nm, None not in q and q not in claimed, 'door at %s' % (q,))
        E.check('%s: a door is next to a tile the room claims' % nm, tuple(a - b for a, b in zip(q, u)) in claimed, 'door at %s facing %s' % (q, u))
        ways.append((tuple(a - b for a, b in zip(q, u)), u))
    # room-local tiles, for the shapes (room.pos is what the shapes are relative to)
    rel = tuple(plain(a - b) for a, b in zip(xyz(room.pos), base))
    back = -DIRS[d]
    NOW[1] = {turn(tuple(a - b for a, b in zip(t, rel)), back) for t in tiles}
    if nm in RANDOM_POLES: ways = []
    NOW[2] = [doorway(turn(tuple(a - b for a, b in zip(t, rel)), back), turn(u, back)) for t, u in ways]
    w, m = Recorder(), XMap()
    if E.sym: E.patch(KIT, 'x', kit_by_contract)
    else: E.patch_random()
    room.render(w, m)
    bad = []
    for p in w.points:
        t = tuple(plain(c - 8 * b) for c, b in zip(p, base))
        if None in t or any(not isinstance(c, int) for c in t) or tuple(c // 8 for c in t) not in claimed: bad.append(t)
    E.check('%s: everything drawn lies in a claimed tile' % nm, not bad, 'voxels (relative to the position) %s' % (bad[:3],))
    doors = set().union(*[cells(*doorway(t, u)) for t, u in ways])
    blocked = set()
    for p, solid in zip(w.points, w.solid):
        t = tuple(plain(c - 8 * b) for c, b in zip(p, base))
        if t in doors: (blocked.add if solid else blocked.discard)(t)
    E.check('%s: nothing drawn stands in the middle of a doorway' % nm, not blocked and not w.blocked, 'voxels %s' % (sorted(blocked or w.blocked)[:3],))
    for e in m.ents:
        if type(e).__name__ == 'Light':
            lights.append(tuple(c / 4 for c in (e.o.x, e.o.y, e.o.z)))
            continue
        t = tuple(plain(c - 32 * b) for c, b in zip((e.o.x, e.o.y, e.o.z), base))
        E.check('%s: entities stand in a claimed tile' % nm, None not in t and tuple(c // 32 for c in t) in claimed, '%s at %s (quarter voxels, relative)' % (type(e).__name__, t))
    for l in lights:
        t = tuple(plain(c - 8 * b) for c, b in zip(l, base))
        E.check('%s: lights stand within two tiles of a claimed tile' % nm, None not in t and any(all(abs(c // 8 - a) <= 2 for c, a in zip(t, tile)) for tile in tiles), 'light at %s (voxels, relative)' % (t,))
    E.check('%s: drawing leaves the claim unchanged' % nm, [tuple(plain(a - b) for a, b in zip(xyz(p), base)) for p in room.get_positions()] == tiles)
    E.cover(nm)


def group(title, classes, n, weight):
    gs = [[] for _ in range(n)]
    size = lambda c: len(MODELS(c.vox_file).model_voxels.voxels) if c in MODELLED else len(flags_of(c))
    for c in sorted(classes, key=lambda c: (-size(c), c.__name__)): min(gs, key=lambda g: sum(size(x) + 10 for x in g)).append(c)
    for i, g in enumerate(gs):
        if not g: continue
        def fn(E, g=g): judge(E, g[E.choice('room', range(len(g)))])
        fns = [c.__module__ + '.' + c.__name__ + '.' + f for c in g for f in ('__init__', 'render', '_get_positions', '_get_doorways')]
        CONTRACTS.append(Contract('%s %d: %s' % (title, i + 1, ' '.join(c.__name__ for c in g)), fn, functions=['redeclipse.prefabs.Room.get_positions', 'redeclipse.prefabs.Room.get_doorways'] + fns,
                                  opts={'generic_range': 20, 'budget': 400}, cover=[c.__name__ for c in g], weight=weight,
                                  note='LIGHTMAN.light adds only a light (C18); TEXMAN.get_c/get_colour return texture numbers (C15); the shapes drawn by the kit obey the kit contracts (proved in this check)' +
                                       ('; the voxels of the .vox models are read from the files by the harness, colours renumbered (the reader itself is under contract in C16)' if classes is MODELLED else '')))


group('rooms', PROCEDURAL, 4, 2.0)
group('model rooms', MODELLED, 5, 2.0)
for c in C09.CONTRACTS + [c for c in C10.CONTRACTS if c.name == 'x draws']:
    CONTRACTS.append(Contract('kit: ' + c.name, c.fn, functions=c.functions, opts=c.opts, cover=c.cover, note=c.note, weight=.5))
