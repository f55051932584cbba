"""an arbitrary room: any finite list of claimed tiles, any finite list of doors (symbolic in the verifier)"""
from hlib import *
from redeclipse.prefabs import Room
NAMES = ['EAST', 'NORTH', 'WEST', 'SOUTH']
ROOMFN = ['redeclipse.prefabs.Room.get_positions', 'redeclipse.prefabs.Room.get_doorways', 'redeclipse.vector.BaseVector.rotate']
M = 1 << 12


def sym_vectors(E, name, n, lo=-M, hi=M, wrap=None):
    """a symbolic list of n coarse vectors"""
    import z3
    from pyvc import rt, core
    I = z3.IntSort()
    b = rt.newbinders(1)[0]
    fs = [z3.Function(name + a, I, I) for a in 'xyz']
    j = z3.Int('jq')
    for g in fs: core.ENG.define(z3.ForAll([j], z3.And(g(j) >= lo, g(j) <= hi), patterns=[g(j)]))
    el = CoarseVector(*[core.ENG.atom(g(b), (lo, hi), False) for g in fs])
    if wrap: el = wrap(el, b)
    t = rt.TList()
    t.segs = [rt.Seg(None, [b], z3.And(b >= 0, b < core.num(n).z()), el, 0, n)]
    return t


class GRoom(Room):
    """uses the real Room.get_positions / Room.get_doorways over its own relative tiles and doors"""
    def __init__(self, pos, orientation, tiles, doors):
        self.pos = pos
        self.orientation = orientation
        self.tiles = tiles
        self.doors = doors

    def _get_positions(self): return self.tiles
    def _get_doorways(self): return self.doors


def room(E, name='room', small=True, lo=-M, hi=M):
    d = E.choice(name + '.orientation', NAMES)
    if E.sym:
        pos = CoarseVector(*[E.int(name + '.pos.' + a, lo, hi) for a in 'xyz'])
        tiles = sym_vectors(E, name + '_tile_', E.int(name + '.tiles', 0, M))
        dirs = sym_dirs(name)
        doors = sym_vectors(E, name + '_door_', E.int(name + '.doors', 0, M), wrap=lambda off, b: {'orientation': dirs(b), 'offset': off})
    else:
        pos = CoarseVector(*[E.int(name + '.pos.' + a, 0, 33) for a in 'xyz'])
        tiles = [CoarseVector(*[E.int(name + '.t.' + a, -3, 3) for a in 'xyz']) for _ in range(E.int(name + '.tiles', 0, 6))]
        doors = [{'orientation': card(E.choice(name + '.dd', NAMES)), 'offset': CoarseVector(*[E.int(name + '.d.' + a, -4, 4) for a in 'xyz'])} for _ in range(E.int(name + '.doors', 0, 4))]
    return GRoom(pos, card(d), tiles, doors), d


def sym_dirs(name):
    import z3
    from pyvc import core
    I = z3.IntSort()
    fs = [z3.Function(name + '_dir_' + a, I, I) for a in 'xyz']
    j = z3.Int('jq')
    for g in fs: core.ENG.define(z3.ForAll([j], z3.And(g(j) >= -1, g(j) <= 1), patterns=[g(j)]))
    return lambda b: CoarseVector(*[core.ENG.atom(g(b), (-1, 1), False) for g in fs])


def about(t, k, c=16):
    """k quarter turns of a tile index about tile index (c, c)"""
    x, y, z = turn((t[0] - c, t[1] - c, t[2]), k)
    return (x + c, y + c, z)


def at(E, seq, i):
    """element i of a list produced by the code (symbolic or not)"""
    return seq[i]
