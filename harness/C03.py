from pyvc.hapi import Registry
from hlib import *
from hworld import World, VW, point
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.enums import Faces, OCT
CONTRACTS = Registry()
FNS = [VW + 'to_octree', VW + 'get_point', 'redeclipse.objects.cube.newcube']


def empty_leaf(c):
    return isinstance(c, cube) and c.children is None and list(c.faces) == [Faces.F_EMPTY] * 3 and c.octsav & 7 == OCT.OCTSAV_EMPTY.value and c.ext is None


def inner_ok(c):
    return isinstance(c, cube) and c.octsav & 7 == OCT.OCTSAV_CHILDREN.value and isinstance(c.children, list) and len(c.children) == 8


def octants(lo, h): return [tuple(a + (h if i >> k & 1 else 0) for k, a in enumerate(lo)) for i in range(8)]


class Node:
    def __init__(self, i): self.i = i


class Rec:
    """stands for the recursive call: its contract is None for an empty region, else the tree of that region"""
    def __init__(self, E, lo, h, ask=True):
        self.E = E; self.lo = lo; self.h = h; self.seen = []; self.out = [None] * 8
        if ask:
            for i in range(8): self.out[i] = Node(i) if E.bool('octant%d holds a voxel' % i) else None
    def __call__(self, x_bounds=None, y_bounds=None, z_bounds=None, layers=False):
        E = self.E
        b = (x_bounds, y_bounds, z_bounds)
        for i, o in enumerate(octants(self.lo, self.h)):
            if E.And(*[E.And(q[0] == c, q[1] == c + self.h) for q, c in zip(b, o)]):
                self.seen.append(i)
                return self.out[i]
        from pyvc import core
        raise core.Unsupported('recursion into something other than an octant (the whole-tree evaluation decides)')


def region(E, root):
    h = E.int('half', 1, 1 << 20)
    if root: return (0, 0, 0), h, 2 * h
    k = [E.int('cell.' + a, 0, 1 << 12) for a in 'xyz']
    size = E.int('size', 4, 1 << 22)
    lo = tuple(E.int('lo.' + a, 0, 1 << 22) for a in 'xyz')     # aligned regions of a larger world
    for c in lo: E.assume(c + 2 * h <= size)
    E.assume(2 * h < size)
    return lo, h, size


def family(E, W, res, R, root):
    if not root and all(o is None for o in R.out):
        E.check('a vacant region yields no tree', res is None); E.cover('vacant')
        return
    if root: E.check('the root is a list of eight cubes', isinstance(res, list) and len(res) == 8); kids = res
    else:
        E.check('an inner cube has eight children and the marker', inner_ok(res)); kids = res.children
    for i in range(8):
        if R.out[i] is None: E.check('every vacant octant is an empty leaf', empty_leaf(kids[i]))
        else: E.check('child x+2y+4z is the tree of that octant', kids[i] is R.out[i])
    fresh = [id(k) for i, k in enumerate(kids) if R.out[i] is None]
    E.check('empty leaves are not shared', len(set(fresh)) == len(fresh))
    E.cover('some')
    E.check('the voxel world is not modified', W.same(point(E, 'q')))


@CONTRACTS('inner region', functions=FNS, cover=['vacant', 'some'], con=False)
def c_inner(E):
    lo, h, size = region(E, False)
    W = World(E, size=size, bounds=False)
    R = Rec(E, lo, h)
    E.patch(W.w, 'to_octree', R)
    res = VoxelWorld.to_octree(W.w, *[(c, c + 2 * h) for c in lo])
    family(E, W, res, R, False)


@CONTRACTS('root region', functions=FNS, cover=['some'], con=False)
def c_root(E):
    lo, h, size = region(E, True)
    W = World(E, size=size, bounds=False)
    R = Rec(E, lo, h)
    E.patch(W.w, 'to_octree', R)
    res = VoxelWorld.to_octree(W.w) if E.bool('plain') else VoxelWorld.to_octree(W.w, (0, size), (0, size), (0, size))
    family(E, W, res, R, True)


@CONTRACTS('single voxel', functions=FNS, cover=['hit', 'none'], con=False)
def c_unit(E):
    size = E.int('size', 2, 1 << 20)
    W = World(E, size=size, bounds=False)
    p = tuple(E.int('p.' + a, 0, 1 << 20) for a in 'xyz')
    E.assume(E.And(*[c < size for c in p]))
    R = Rec(E, p, 1, ask=False)
    E.patch(W.w, 'to_octree', R)
    res = VoxelWorld.to_octree(W.w, *[(c, c + 1) for c in p])
    if res is None: E.check('nothing only where nothing is stored', E.Not(W.has0(p))); E.cover('none')
    else: E.check('the very stored cube', E.And(W.has0(p), res._term == W.V0(*W._k(p)))); E.cover('hit')
    E.check('the voxel world is not modified', W.same(point(E, 'q')))


@CONTRACTS('whole tree', functions=FNS, sym=False, note='whole-tree evaluation on worlds up to 16 voxels wide: bounded cross-check of the induction made by the other contracts')
def c_tree(E):
    n = E.choice('size', [2, 4, 4, 8, 16])
    w = VoxelWorld(n)
    style = E.choice('style', ['sparse', 'dense', 'octant', 'line', 'none'])
    k = {'sparse': 6, 'dense': n ** 3 // 2 if n <= 8 else 300, 'octant': 12, 'line': 0, 'none': 0}[style]
    for i in range(k):
        p = tuple(E.int('v.' + a, 0, (n // 2 if style == 'octant' else n) - 1) for a in 'xyz')
        w.set_point(*p, cube.newtexcube(tex=i))
    if style == 'line':
        f = tuple(E.int('f.' + a, 0, n - 1) for a in 'xyz')
        ax = E.choice('axis', [0, 1, 2])
        for i in range(n): w.set_point(*[i if j == ax else f[j] for j in range(3)], cube.newtexcube(tex=i))
    before = dict(w.world)
    root = w.to_octree()
    E.check('the voxel world is not modified', w.world == before)
    E.check('the root is a list of eight cubes', isinstance(root, list) and len(root) == 8)
    seen = set()
    def walk(kids, lo, h):
        """number of stored voxels below"""
        total = 0
        for i, (c, o) in enumerate(zip(kids, octants(lo, h))):
            if h == 1:
                v = before.get(o)
                if v is None: E.check('every vacant octant is an empty leaf', empty_leaf(c))
                else: E.check('the very stored cube', c is v); total += 1
            elif c.children is not None:
                E.check('an inner cube has eight children and the marker', inner_ok(c))
                t = walk(c.children, o, h // 2)
                E.check('every inner cube covers a voxel', t > 0)
                total += t
            else:
                E.check('every vacant octant is an empty leaf', empty_leaf(c))
                E.check('no voxel is lost', not any(all(a <= b < a + h for a, b in zip(o, p)) for p in before))
        return total
    E.check('no voxel is lost', walk(root, (0, 0, 0), n // 2) == len(before))
