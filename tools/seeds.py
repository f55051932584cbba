SEEDS = []
def seed(id, property, edits, demo, needs, breaks, **k): SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

seed('s01-voxel-int-keys', 'C04',
     [('redeclipse/voxel/__init__.py', '        self.world[tuple(xyz)] = data', '        self.world[int(xyz.x), int(xyz.y), int(xyz.z)] = data')],
     '''
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector
w = VoxelWorld(16)
w.set_point(0, 3, 3, 'a')
w.set_pointv(FineVector(-0.5, 3, 3), 'b')
assert w.get_point(0, 3, 3) == 'a', w.world
assert w.get_point(-0.5, 3, 3) == 'b', w.world
''', 'a vector with non-integral coordinates', 'setting a voxel at a half-unit position overwrites the voxel at the truncated position')

seed('s02-octree-prune', 'C03',
     [('redeclipse/voxel/__init__.py', '''        # Otherwise, split into 8 smaller cubes
''', '''        # Nothing was ever placed in this part of the world.
        if x_bounds[0] != 0 and (x_bounds[0] > self.xmax or y_bounds[0] > self.ymax or z_bounds[0] >= self.zmax > 0):
            return None

        # Otherwise, split into 8 smaller cubes
''')],
     '''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
w = VoxelWorld(8)
w.set_point(5, 1, 4, cube.newtexcube(tex=7))
def at(cs, size, x, y, z):
    h = size // 2
    c = cs[(x >= h) + 2 * (y >= h) + 4 * (z >= h)]
    return c if not c.children else at(c.children, h, x % h, y % h, z % h)
assert at(w.to_octree(), 8, 5, 1, 4) is w.get_point(5, 1, 4)
''', 'the highest voxel of the world sits on the bottom layer of an octant that does not start at x = 0', 'the highest layer of voxels is missing from the octree')

seed('s03-coarse-trunc', 'C05',
     [('redeclipse/vector/__init__.py', '''            self.x // 8,
            self.y // 8,
            self.z // 8''', '''            int(self.x / 8),
            int(self.y / 8),
            int(self.z / 8)''')],
     '''
from redeclipse.vector import FineVector, CoarseVector
v = FineVector(-3, 5, 12.5)
assert tuple(v.coarse()) == (-1, 0, 1), v.coarse()
''', 'a negative coordinate that is not a multiple of 8', 'fine to coarse conversion finds the wrong tile for negative coordinates')

seed('s04-coarse-eq', 'C06',
     [('redeclipse/vector/__init__.py', '''            tmp = self.fine()
            return \\
                tmp.x == other.x and \\
                tmp.y == other.y and \\
                tmp.z == other.z''', '''            tmp = other.coarse()
            return \\
                self.x == tmp.x and \\
                self.y == tmp.y and \\
                self.z == tmp.z''')],
     '''
from redeclipse.vector import FineVector, CoarseVector
a, b = CoarseVector(1, 0, 0), FineVector(9, 0, 0)
assert not a == b and not b == a
assert a == FineVector(8, 0, 0)
''', 'comparing a coarse vector with a fine vector inside its tile', 'equality is no longer symmetric or transitive')

seed('s05-rotate-table', 'C07',
     [('redeclipse/vector/__init__.py', '''        else:
            theta = pi * deg / 180
''', '''        else:
            if abs(deg) > 360:
                deg = deg % 180 + 180
            theta = pi * deg / 180
''')],
     '''
from redeclipse.vector import FineVector
v = FineVector(3, 1, 2)
assert v.rotate(450) == v.rotate(90), v.rotate(450)
''', 'an angle beyond one full turn', 'turns do not compose: 450 degrees acts as 270')

seed('s06-cube-points-neg-z', 'C08',
     [('redeclipse/prefabs/construction_kit.py', '''        z_lower_bound = z + 1
        z_upper_bound = 1''', '''        z_lower_bound = z
        z_upper_bound = 0''')],
     '''
from redeclipse.prefabs.construction_kit import cube_points
pts = sorted(tuple(p) for p in cube_points(1, 1, -3))
assert pts == [(0, 0, -2), (0, 0, -1), (0, 0, 0)], pts
assert list(cube_points(1, 1, 0)) == []
''', 'a negative z extent', 'a box of negative height is drawn one layer too low')

seed('s07-dotted-phase', 'C09',
     [('redeclipse/prefabs/construction_kit.py', '''        for idx, point in enumerate(column_points(length, direction.rotate(self.orientation))):
            if onoff[idx % len(onoff)]:
                yield point + local_position''', '''        heading = direction.rotate(self.orientation)
        for idx, point in enumerate(column_points(length, heading)):
            # Dots are aligned from the low end of the column.
            if heading.x < 0 or heading.y < 0:
                idx = length - 1 - idx
            if onoff[idx % len(onoff)]:
                yield point + local_position''')],
     '''
from redeclipse.prefabs import Room
from redeclipse.vector import FineVector, CoarseVector
from redeclipse.vector.orientations import *
def pts(o, n):
    r = Room(CoarseVector(0, 0, 0), orientation=o)
    return sorted(tuple(p) for p in r.x_dotted_column(FineVector(0, 3, 0), EAST, n, on=2, off=1))
e, w = pts(EAST, 7), pts(WEST, 7)
assert sorted((7 - x, 7 - y, z) for x, y, z in e) == w, (e, w)
''', 'a room facing west or south and a length for which the dot pattern is not symmetric', 'the dots of a dotted column move when the room is turned')

seed('s08-prob-once', 'C10',
     [('redeclipse/prefabs/construction_kit.py', '''        for point in func(*args, **kwargs):
            if subtract_or_skip(subtract, prob):
                world.del_pointv(point)
                continue
            world.set_pointv(point, cube.newtexcube(tex=tex))''', '''        for point in func(*args, **kwargs):
            if subtract_or_skip(subtract, prob):
                if not subtract and prob <= 0:
                    continue
                world.del_pointv(point)
                continue
            world.set_pointv(point, cube.newtexcube(tex=tex))''')],
     '''
from redeclipse.prefabs import Room
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector, CoarseVector
from redeclipse.vector.orientations import *
w = VoxelWorld(64)
for x in range(64):
    w.set_point(x, 8, 8, 'old')
r = Room(CoarseVector(1, 1, 1), orientation=EAST)
r.x('column', w, SELF, EAST, 8, prob=0)
left = [x for x in range(64) if w.get_point(x, 8, 8) == 'old']
assert not any(8 <= x < 16 for x in left), left
''', 'prob = 0 over existing voxels', 'with probability 0 old voxels inside the shape survive')

seed('s09-mirror-check-once', 'C11',
     [('redeclipse/upm.py', '''        for r in self._yield_mirrored(room):
            self._register_room(r)
''', '''        for idx, r in enumerate(self._yield_mirrored(room)):
            # The copies are symmetric: if the first one fits, all of them do.
            self._register_room(r, check=(idx == 0))
'''), ('redeclipse/upm.py', '''    def _register_room(self, room):
''', '''    def _register_room(self, room, check=True):
'''), ('redeclipse/upm.py', '''            if position in self.occupied.keys() and not self.noclip:
                raise''', '''            if check and position in self.occupied.keys() and not self.noclip:
                raise''')],
     '''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
u = UnusedPositionManager(256, mirror=2)
try:
    u.register_room(Room(CoarseVector(16, 16, 3)))
except Exception:
    pass
seen = {}
for r in u.rooms:
    for p in r.get_positions():
        assert tuple(p) not in seen, (p, u.rooms)
        seen[tuple(p)] = r
''', 'a mirrored room that overlaps its own turned copy (at the centre of the map)', 'two registered rooms share a position')

seed('s10-link-turn', 'C12',
     [('redeclipse/upm.py', '''                room.pos.offset_rotate(orientation, offset=CoarseVector(-16, -16, 0)),
                room.orientation.rotate(orientation)
            )''', '''                room.pos.offset_rotate(360 - orientation if self.mirror == 4 else orientation, offset=CoarseVector(-16, -16, 0)),
                room.orientation.rotate(orientation)
            )''')],
     '''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
u = UnusedPositionManager(256, mirror=4)
a, b = Room(CoarseVector(8, 7, 3)), Room(CoarseVector(9, 7, 3))
u.register_room(a); u.register_room(b); u.register_link(a, b)
pos = [tuple(r.pos) for r in u.rooms]
want = {(pos[k], pos[4 + k]) for k in range(4)}
got = [(tuple(x), tuple(y)) for x, y in u.links]
assert [(pos[k], pos[4 + k]) for k in range(4)] == got, (pos, got)
''', 'four-fold mirroring, comparing the k-th link with the k-th copy', 'the links of copies 1 and 3 are exchanged')

seed('s11-stream-rare', 'C14',
     [('redeclipse/upm.py', 'frequency = int(probs.get(room.room_type, 0.1) / minimum_prob)', 'frequency = min(int(probs.get(room.room_type, 0.1) / minimum_prob), 50) % 50')],
     '''
import random
from redeclipse.upm import UnusedPositionManager
class K:
    def __init__(self, t): self.room_type = t
class P:
    def get_transition_probs(self): return {'a': 0.01, 'b': 5}
a, b = K('a'), K('b')
s = list(UnusedPositionManager(256).random_room_stream(P(), [a, b]))
assert len(s) == 2 and a in s and b in s, s
''', 'a candidate at least 50 times as likely as the least likely one', 'very likely candidates vanish from the stream')

seed('s12-outline-height', 'C17',
     [('redeclipse/aftereffects.py', '''                zb = z == world.size - 1

                # Fun''', '''                zb = z == max_height - 1

                # Fun''')],
     '''
from redeclipse.aftereffects import box_outline
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(8)
box_outline(w, height=4)
e = lambda c: c in (0, 7)
want = {(x, y, z) for x in range(8) for y in range(8) for z in range(4) if e(x) + e(y) + e(z) > 1}
assert set(w.world) == want, sorted(set(w.world) ^ want)
''', 'a height below the world size', 'the outline gets a lid at the given height that is no outer edge of the world')

seed('s13-merge-mask', 'C01',
     [('redeclipse/__init__.py', '            c.merged = self._read_char()', '            c.merged = self._read_char() & 0x3F  # one bit per face')],
     '''
import os, tempfile
from redeclipse import MapParser
d = tempfile.mkdtemp(); p = os.path.join(d, 'm.mpz')
try:
    m = MapParser().read('tests/files/empty-fps-64.mpz') if os.path.exists('tests/files/empty-fps-64.mpz') else None
    if m is None:
        import glob
        for f in sorted(glob.glob('maps/empty*.mpz') + glob.glob('tests/files/*.mpz')):
            try:
                m = MapParser().read(f); break
            except Exception:
                pass
    def leaf(c):
        while c.children: c = c.children[0]
        return c
    c = leaf(m.world[0]); c.octsav |= 0x80; c.merged = 0xC1
    m.write(p)
    n = MapParser().read(p)
    assert leaf(n.world[0]).merged == 0xC1, leaf(n.world[0]).merged
finally:
    import shutil; shutil.rmtree(d)
''', 'a cube whose merge byte has a bit beyond the six faces', 'the two upper bits of the merge byte are lost on loading')

seed('s14-link-dup', 'C02',
     [('redeclipse/__init__.py', '            for ln in ent.links:', '            for ln in OrderedDict.fromkeys(ent.links):')],
     '''
import gzip, io, struct
from redeclipse import Map
from redeclipse.entities import PlayerSpawn
from redeclipse.vector import FineVector
e = PlayerSpawn(FineVector(1, 2, 3), links=[4, 5, 4])
m = Map.__new__(Map)
h = io.BytesIO()
m._write_ents(h, [e])
want = struct.pack('<i3i', 3, 4, 5, 4)
assert h.getvalue().endswith(want), h.getvalue()[-20:]
''', 'an entity that lists the same link twice', 'the link count no longer matches the links that follow it in the file')

seed('s15-cap-corner', 'C13',
     [('redeclipse/upm.py', 'if not all([self.is_legal(pos) for pos in r.get_positions()]):', 'if not all([self.is_legal(pos) for pos in (r.pos, r.get_positions()[-1])]):')],
     '''
import random
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
class Cap(Room):
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
    def _get_positions(self): return [SELF, NORTH, SELF + ABOVE]
class Start(Room):
    def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST}]
u = UnusedPositionManager(256)
# the door leads east along the northern border of the map
for y in (0, 31):
    u = UnusedPositionManager(256)
    u.register_room(Start(CoarseVector(10, y, 4)))
    u.endcap(possible_endcaps=[Cap])
    for p in u.occupied:
        assert u.is_legal(p), (p, y)
''', 'an end cap of three or more tiles of which neither the first nor the last is the one that leaves the map', 'an end cap is placed partly outside the map')

seed('s16-atlas-byte', 'C15',
     [('redeclipse/textures/__init__.py', '''            pos = len(self.atlas)
            self.atlas[pos] = tex
            # Now insert backref
            self.atlas_backref[name] = pos
        return self.atlas_backref[name]

    def get_c(self, category):
        if category == 'generic':
            return self.get_colour(0, 0, 0)''', '''            pos = len(self.atlas) % 256  # one byte per palette index
            self.atlas[pos] = tex
            # Now insert backref
            self.atlas_backref[name] = pos
        return self.atlas_backref[name]

    def get_c(self, category):
        if category == 'generic':
            return self.get_colour(0, 0, 0)''')],
     '''
from redeclipse.textures import AutomatedMagicaTextureManager
t = AutomatedMagicaTextureManager()
seen = {}
for k in range(400):
    n = t.get_colour(k / 512, 0, 0)
    assert n not in seen.values(), (n, seen)
    seen[k] = n
assert sorted(t.atlas) == list(range(len(t.atlas))), sorted(t.atlas)
for k, n in seen.items():
    assert t.atlas[n].r == k / 512, (k, n)
''', 'more than 256 different colours', 'colour numbers start again from 0 and collide')

seed('s17-palette-sorted', 'C16',
     [('redeclipse/magicavoxel/writer.py', 'in enumerate(texman.atlas.items()):', 'in enumerate(sorted(texman.atlas.items(), key=lambda kv: (kv[1].r, kv[1].g, kv[1].b))):')],
     '''
import io, struct
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.textures import AutomatedMagicaTextureManager
from redeclipse.magicavoxel.writer import to_magicavoxel
t = AutomatedMagicaTextureManager()
w = VoxelWorld(16)
cols = [(0.75, 0, 0), (0.25, 1, 0), (0.5, 0, 1)]
for k, c in enumerate(cols):
    w.set_point(k, 0, 0, cube.newtexcube(tex=t.get_colour(*c)))
h = io.BytesIO(); to_magicavoxel(w, h, t)
b = h.getvalue()
i = b.index(b'XYZI'); n = struct.unpack('i', b[i + 12:i + 16])[0]
j = b.index(b'RGBA') + 12
for k in range(n):
    x, y, z, c = b[i + 16 + 4 * k:i + 20 + 4 * k]
    got = tuple(b[j + 4 * (c - 1):j + 4 * (c - 1) + 3])
    want = tuple(int(255 * v) for v in cols[x])
    assert all(abs(p - q) <= 1 for p, q in zip(got, want)), (x, got, want)
''', 'textures first used in an order other than the order of their colours', 'the palette is written in another order than the colour numbers of the voxels')

seed('s18-light-floor', 'C18',
     [('redeclipse/lighting/__init__.py', 'xyz=position.entity() / self._world_size_factor', 'xyz=position.entity() // self._world_size_factor')],
     '''
from redeclipse.lighting import LightManager
from redeclipse.vector import FineVector
class M: pass
m = M(); m.ents = []
LightManager(world_size=2 ** 10).light(m, FineVector(3, 5, 7), autocenter=False)
o = m.ents[0].o
want = [v * 4 / 16 * 4 for v in (3, 5, 7)]
assert [o.x, o.y, o.z] == want, (o.x, o.y, o.z, want)
''', 'a world larger than 2^8 and a position that is not a multiple of the scale', 'lights snap to coarser positions in large worlds')

seed('s19-vertical-mid', 'C19',
     [('redeclipse/prefabs/__init__.py', "self.x('floor', world, SOUTHWEST + FineVector(4, 4, 1), tex=accent_tex, size=16)", "self.x('floor', world, SOUTHWEST.rotate(self.orientation) + FineVector(4, 4, 1), tex=accent_tex, size=16)")],
     '''
import contextlib, io
from redeclipse.prefabs import AltarRoom
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
class M: pass
for o in CARDINALS:
    m = M(); m.ents = []
    w = VoxelWorld(256)
    r = AltarRoom(CoarseVector(8, 8, 3), orientation=o)
    with contextlib.redirect_stdout(io.StringIO()):
        r.render(w, m)
    tiles = {tuple(p) for p in r.get_positions()}
    for (x, y, z) in w.world:
        assert (x // 8, y // 8, z // 8) in tiles, (o, x, y, z)
''', 'a room that does not face east', 'the dais of the altar room is turned twice and leaves the room')

seed('s20-children-empty', 'C20',
     [('redeclipse/objects.py', "d['children'] = [{} if x is None else x.to_dict() for x in self.children] if self.children else []", "d['children'] = [x.to_dict() for x in self.children if x is not None] if self.children else []")],
     '''
import json
from redeclipse.objects import cube
c = cube.newcube()
c.children = [cube.newtexcube(tex=k) if k % 3 else None for k in range(8)]
d = c.to_dict()
assert len(d['children']) == 8, len(d['children'])
for k in range(8):
    assert (d['children'][k] == {}) == (k % 3 == 0), (k, d['children'][k])
''', 'an inner cube with vacant children', 'the octants of the dumped children are no longer identifiable')

seed('s21-last-door', 'C22',
     [('redeclipse/upm.py', 'if (d, r, o) != (prev_room_door, prev_room, prev_room_orientation)', 'if (d, r, o) != (prev_room_door, prev_room, prev_room_orientation) or len(self.unoccupied) == 1')],
     '''
import signal
def stop(*a): raise SystemExit('placement does not end')
signal.signal(signal.SIGALRM, stop); signal.alarm(20)
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
class Start(Room):
    def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST}]
class Tower(Room):
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
    def _get_positions(self): return [SELF + ABOVE * k for k in range(40)]
u = UnusedPositionManager(256)
u.register_room(Start(CoarseVector(10, 10, 4)))
u.place_rooms(False, [Tower], rooms=5)
assert len(u.rooms) == 1
''', 'no room fits the only open door left', 'room placement tries the last open door for ever')

seed('s22-flavor-set', 'C21',
     [('redeclipse/worldflavors.py', '    for flavor in flavors:', '    for flavor in set(flavors):')],
     '''
import os, subprocess, sys
prog = """
from redeclipse.worldflavors import update
class W: cfg_extra = []
print(update(W(), ['maliwan', 'space_station', 'crushed_blacks']).cfg_extra)
"""
outs = {subprocess.run([sys.executable, '-c', prog], capture_output=True, text=True, check=True, env=dict(os.environ, PYTHONHASHSEED=str(k))).stdout for k in range(8)}
assert len(outs) == 1, outs
''', 'two or more flavours and two processes with different hash seeds', 'the extra config lines come in an order that depends on string hashing')

seed('s23-seed-zero', 'C21',
     [('redeclipse/cli/magica_rooms.py', '    random.seed(seed)\n', '    random.seed(seed or None)\n')],
     '''
import contextlib, io, os, random, sys
import redeclipse.cli.magica_rooms as g
import logging; logging.disable(logging.CRITICAL)
def go():
    with open(os.path.join('tests', 'files', sorted(f for f in os.listdir('tests/files') if f.startswith('empty'))[0])) as f, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        v, m, u = g.main(f, seed=0, rooms=6)
    return [(type(r).__name__, tuple(r.pos), r.orientation) for r in u.rooms]
a = go(); random.random(); b = go()
assert repr(a) == repr(b)
''', 'the seed 0', 'seed 0 is taken for no seed and two runs give different maps')

seed('s24-slab-in-door', 'C19',
     [('redeclipse/prefabs/__init__.py', "self.x('floor', world, NORTH + ABOVE + HALF_HEIGHT, tex=tex1)", "self.x('floor', world, NORTH + HALF_HEIGHT, tex=tex1)")],
     """
import contextlib, io
from redeclipse.prefabs import MultiPlatform
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
class M: pass
for o in CARDINALS:
    for flag in (True, False):
        m = M(); m.ents = []
        w = VoxelWorld(256)
        r = MultiPlatform(CoarseVector(8, 8, 3), orientation=o, randflags=[flag])
        with contextlib.redirect_stdout(io.StringIO()):
            r.render(w, m)
        for d in r.get_doorways():
            t = d['offset'] - d['orientation']
            ax = 0 if d['orientation'].x else 1
            edge = 7 if (d['orientation'].x + d['orientation'].y) > 0 else 0
            for across in range(2, 6):
                for up in range(1, 5):
                    p = [8 * t.x, 8 * t.y, 8 * t.z + up]
                    p[ax] += edge
                    p[1 - ax] += across
                    assert tuple(p) not in w.world, (o, flag, d, p)
""", 'the multi platform room and its northern door', 'a platform hangs at half height in the doorway of the room')

seed('s25-shared-options', 'C14',
     [('redeclipse/prefabs/__init__.py', "            mutatedOpts = list(copy.deepcopy(prev._randflags))", "            mutatedOpts = prev._randflags if isinstance(prev._randflags, list) else list(prev._randflags)")],
     """
from redeclipse.prefabs import ImposingRingRoom
from redeclipse.vector import CoarseVector
for k in range(50):
    a = ImposingRingRoom(CoarseVector(4, 4, 4), randflags=[True, False, True, True, False])
    f = ImposingRingRoom.randOpts(a)['randflags']
    assert list(a._randflags) == [True, False, True, True, False], a._randflags
    assert sum(x != y for x, y in zip(f, a._randflags)) == 1
""", 'the same type of room twice in a row, the first with drawn options', 'drawing options for the next room changes the room that was already placed')

seed('s26-depth-image', 'C15',
     [('redeclipse/textures/basetex.py', '''        yield self.s
        yield self.z
        yield self.g''', '''        yield self.s
        if self.parallaxscale:
            yield self.z
        yield self.g''')],
     """
from redeclipse.textures import basetex
class T(basetex.BumpSpecMapParallaxGlowWorld):
    c, n, s, z, g = 'c.png', 'n.png', 's.png', 'z.png', 'g.png'
for scale in (None, (0.1, 0.1, 0.1, 0)):
    t = T(); t.parallaxscale = scale
    files = list(t.files())
    for l in t.conf(idx=3).split(chr(10)):
        if l.startswith('texture '):
            image = l.split('"')[1]
            assert image[len('hxr/textures/'):] in files, (scale, image, files)
""", 'a glowing parallax texture without a parallax scale', 'the depth image of the texture is named in the config but not copied')

seed('s27-first-door', 'C13',
     [('redeclipse/upm.py', '                for chosen_door in options:', '                for chosen_door in options[:1]:')],
     """
import random
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
class Start(Room):
    def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST}]
class Wall(Room):
    # two doors to the west, one above the other
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}, {'orientation': WEST, 'offset': WEST + ABOVE}]
    def _get_positions(self): return [SELF, ABOVE]
def offers(z):
    u = UnusedPositionManager(256)
    s = Start(CoarseVector(10, 10, z))
    u.register_room(s)
    return {tuple(r.pos) for r in u.room_localization([Wall], CoarseVector(11, 10, z), s, EAST)}
for k in range(5):
    random.seed(k)
    assert offers(10) == {(11, 10, 10), (11, 10, 9)}, offers(10)
    # at the top of the map only the upper door fits
    assert offers(31) == {(11, 10, 30)}, offers(31)
""", 'a room with two doors to the same side of which only the second fits', 'a room that fits is not offered')

seed('s28-facing-copies', 'C11',
     [('redeclipse/upm.py', "                if not self.is_legal(door['offset']):", "                if not self.is_legal(door['offset']) or door['offset'] in added_occupied:")],
     """
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
class Long(Room):
    def _get_doorways(self): return [{'orientation': NORTH, 'offset': NORTH * 2}, {'orientation': SOUTH, 'offset': SOUTH}]
    def _get_positions(self): return [SELF, NORTH]
for mirror in (1, 2, 4):
    for x in range(10, 22):
        for y in range(10, 22):
            for o in CARDINALS:
                u = UnusedPositionManager(256, mirror=mirror)
                r = Long(CoarseVector(x, y, 4), orientation=o)
                copies = list(u._yield_mirrored(r))
                tiles = [p for c in copies for p in c.get_positions()]
                fits = len(set(tiles)) == len(tiles) and all(u.is_legal(p) for p in tiles) and all(u.is_legal(d['offset']) for c in copies for d in c.get_doorways())
                u2 = UnusedPositionManager(256, mirror=mirror)
                assert u2.preregister_room(Long(CoarseVector(x, y, 4), orientation=o)) == fits, (mirror, x, y, o)
""", 'mirroring, and a room whose door leads into a copy of itself near the middle of the map', 'a room that fits is refused')
