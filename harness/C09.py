from pyvc.hapi import Registry
from hlib import *
from redeclipse.prefabs.construction_kit import ConstructionKitMixin
CONTRACTS = Registry()
OPT = {'generic_range': 3}
CK = 'redeclipse.prefabs.construction_kit.'
MIX = CK + 'ConstructionKitMixin.'
ROT = ['redeclipse.vector.BaseVector.rotate', 'redeclipse.vector.BaseVector.offset_rotate', CK + 'cube_points']


class Kit(ConstructionKitMixin):
    def __init__(self, pos, orientation):
        self.pos = pos
        self.orientation = orientation


def setup(E):
    d = E.choice('orientation', ['EAST', 'NORTH', 'WEST', 'SOUTH'])
    B = (1 << 12) if E.sym else 20
    pos = CoarseVector(*[E.int('pos.' + a, -B, B) for a in 'xyz'])
    off = tuple(E.int('off.' + a, -B, B) for a in 'xyz')
    k = Kit(pos, card(d))
    if E.bool('whole tiles'):               # an offset given in tiles, as in x('floor', world, EAST + EAST)
        k.off = CoarseVector(*off)
        off = tuple(8 * a for a in off)
    else: k.off = FineVector(*off)
    return k, DIRS[d], xyz(pos), off


def local(p, q, pos):
    """room-local coordinates of voxel p after turning the room back to face east (about the tile's centre line)"""
    r = [a - 8 * b for a, b in zip(p, pos)]
    x, y, z = turn((2 * r[0] - 7, 2 * r[1] - 7, r[2]), -q)
    return ((x + 7) / 2, (y + 7) / 2, z)


def world(r, q, pos):
    x, y, z = turn((2 * r[0] - 7, 2 * r[1] - 7, r[2]), q)
    return ((x + 7) / 2 + 8 * pos[0], (y + 7) / 2 + 8 * pos[1], z + 8 * pos[2])


def box(E, r, o, n): return E.And(*[E.And(a <= c, c < a + m) for c, a, m in zip(r, o, n)])


def judge(E, kit, q, pos, pts, spec, near, inside=None):
    """pts must be exactly the turned image of {r | spec(r)}; near: bounding range for the concrete enumeration"""
    pts = E.collect(pts)
    def el(p):
        r = local(xyz(p), q, pos)
        E.check('drawn points are fine vectors on integer positions', E.And(type(p) is FineVector, *[E.floor(c) == c for c in xyz(p)]))
        E.check('only the turned shape is drawn', spec(r))
        E.cover('some')
    E.all_elements(pts, el)
    if E.sym:
        r = tuple(E.int('r.' + a, -(1 << 17), 1 << 17) for a in 'xyz')
        E.assume(spec(r))
        w = world(r, q, pos)
        E.check('the whole turned shape is drawn', E.contains(pts, FineVector(*w)))
        # shapes inside the tile stay inside the tile
        tile = E.And(*[E.And(0 <= c, c < 8) for c in r])
        E.check('inside the tile stays inside the tile', E.Implies(tile, E.And(*[E.And(8 * b <= c, c < 8 * b + 8) for c, b in zip(w, pos)])))
    else:
        got = {xyz(p) for p in pts}
        want = set()
        for x in range(near[0][0], near[0][1]):
            for y in range(near[1][0], near[1][1]):
                for z in range(near[2][0], near[2][1]):
                    if spec((x, y, z)): want.add(world((x, y, z), q, pos))
        E.check('the whole turned shape is drawn', got >= want)
        E.check('only the turned shape is drawn', got <= want)


def rng(o, n): return [(a, a + m + 1) for a, m in zip(o, n)]
def M(E, k): return (1 << 12) if E.sym else k


@CONTRACTS('single cube', functions=[MIX + 'x_cube'] + ROT, cover=['some'], opts=OPT)
def c_cube(E):
    k, q, pos, o = setup(E)
    judge(E, k, q, pos, k.x_cube(k.off), lambda r: box(E, r, o, (1, 1, 1)), rng(o, (1, 1, 1)))


@CONTRACTS('cuboid', functions=[MIX + 'x_rectangular_prism'] + ROT, cover=['some'], opts=OPT)
def c_prism(E):
    k, q, pos, o = setup(E)
    n = tuple(E.int('n' + a, 0, M(E, 9)) for a in 'xyz')
    judge(E, k, q, pos, k.x_rectangular_prism(k.off, FineVector(*n)), lambda r: box(E, r, o, n), rng(o, n))


@CONTRACTS('floor', functions=[MIX + 'x_floor', MIX + 'x_rectangular_prism'] + ROT, cover=['some'], opts=OPT)
def c_floor(E):
    k, q, pos, o = setup(E)
    s = E.int('size', 1, M(E, 12))
    dflt = E.bool('default')
    if dflt: s = 8
    judge(E, k, q, pos, k.x_floor(k.off) if dflt else k.x_floor(k.off, size=s), lambda r: box(E, r, o, (s, s, 1)), rng(o, (s, s, 1)))


@CONTRACTS('ceiling', functions=[MIX + 'x_ceiling', MIX + 'x_rectangular_prism'] + ROT, cover=['some'], opts=OPT)
def c_ceiling(E):
    k, q, pos, o = setup(E)
    s = E.int('size', 1, M(E, 12))
    dflt = E.bool('default')
    if dflt: s = 8
    o7 = (o[0], o[1], o[2] + 7)
    judge(E, k, q, pos, k.x_ceiling(k.off) if dflt else k.x_ceiling(k.off, size=s), lambda r: box(E, r, o7, (s, s, 1)), rng(o7, (s, s, 1)))


FACE = {'EAST': ((7, 0, 0), 0), 'WEST': ((0, 0, 0), 0), 'NORTH': ((0, 7, 0), 1), 'SOUTH': ((0, 0, 0), 1)}


def wall(E, which):
    k, q, pos, o = setup(E)
    f = E.choice('face', sorted(FACE))
    d, ax = FACE[f]
    o2 = tuple(a + b for a, b in zip(o, d))
    if which == 'low': h, pts = 3, k.x_low_wall(k.off, card(f))
    elif E.bool('default'): h, pts = 8, k.x_wall(k.off, card(f))
    else:
        h = E.int('limit_j', 1, M(E, 12))
        pts = k.x_wall(k.off, card(f), limit_j=h)
    n = (1, 8, h) if ax == 0 else (8, 1, h)
    judge(E, k, q, pos, pts, lambda r: box(E, r, o2, n), rng(o2, n))


@CONTRACTS('wall', functions=[MIX + 'x_wall', MIX + 'x_rectangular_prism'] + ROT, cover=['some'], opts=OPT)
def c_wall(E): wall(E, 'wall')


@CONTRACTS('low wall', functions=[MIX + 'x_low_wall', MIX + 'x_wall'] + ROT, cover=['some'], opts=OPT)
def c_low(E): wall(E, 'low')


@CONTRACTS('ring', functions=[MIX + 'x_ring', MIX + 'x_rectangular_prism'] + ROT, cover=['some'], opts=OPT)
def c_ring(E):
    k, q, pos, o = setup(E)
    s = E.int('size', 1, M(E, 14))
    spec = lambda r: E.And(box(E, r, o, (s, s, 1)), E.Or(r[0] == o[0], r[0] == o[0] + s - 1, r[1] == o[1], r[1] == o[1] + s - 1))
    judge(E, k, q, pos, k.x_ring(k.off, s), spec, rng(o, (s, s, 1)))


def line(E, r, o, u, n, extra=None):
    ax = [i for i in range(3) if u[i]][0]
    t = (r[ax] - o[ax]) * u[ax]
    c = [r[i] == o[i] for i in range(3) if i != ax] + [0 <= t, t < n]
    if extra is not None: c.append(extra(t))
    return E.And(*c)


def lrng(o, u, n): return [(min(a, a + s * n), max(a, a + s * n) + 1) for a, s in zip(o, u)]


@CONTRACTS('column', functions=[MIX + 'x_column', CK + 'column_points'] + ROT, cover=['some'], opts=OPT)
def c_column(E):
    k, q, pos, o = setup(E)
    d = E.choice('dir', sorted(UNIT))
    n = E.int('length', 0, M(E, 14))
    u = UNIT[d]
    judge(E, k, q, pos, k.x_column(k.off, card(d), n), lambda r: line(E, r, o, u, n), lrng(o, u, n))


@CONTRACTS('dotted column', functions=[MIX + 'x_dotted_column', CK + 'column_points'] + ROT, cover=['some'], opts=OPT)
def c_dotted(E):
    k, q, pos, o = setup(E)
    d = E.choice('dir', sorted(UNIT))
    n = E.int('length', 0, M(E, 20))
    u = UNIT[d]
    if E.bool('default'): on, off, kw = 2, 2, {}
    else:
        on, off = E.int('on', 0, M(E, 4)), E.int('off', 0, M(E, 4))
        E.assume(on + off > 0)
        kw = {'on': on, 'off': off}
    judge(E, k, q, pos, k.x_dotted_column(k.off, card(d), n, **kw),
          lambda r: line(E, r, o, u, n, lambda t: (t % (on + off)) < on), lrng(o, u, n))
