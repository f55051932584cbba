from pyvc.hapi import Registry
from hlib import *
from hworld import World, VW, point
from redeclipse.voxel import VoxelWorld
CONTRACTS = Registry()
AX = ['x', 'y', 'z']
OPS = ['set_point', 'set_pointv', 'del_point', 'del_pointv']


def hpoint(E, name, pts=()):
    """a position with whole or half-unit coordinates"""
    if not E.sym and pts and E.bool(name + '.on'):
        p = E.choice(name + '.i', pts)
        if E.bool(name + '.near'): return p
        ax = E.choice(name + '.ax', [0, 1, 2])
        return tuple(c + (.5 if i == ax else 0) for i, c in enumerate(p))
    if E.choice(name + '.unit', ['whole', 'half']) == 'whole': return point(E, name)
    b = (-4, 12) if not E.sym else (-(1 << 20), 1 << 20)
    return tuple(E.grid(name + '.' + a, b[0], b[1], 2) for a in 'xyz')


def give(E, name, p):
    """the position p as integers, integral floats or a mixture (half-unit positions: floats)"""
    if E.sym and any(getattr(c, 'f', False) for c in p) or not E.sym and any(isinstance(c, float) for c in p): return tuple(p)
    f = E.choice(name + '.form', ['int', 'float', 'mixed'])
    if f == 'int': return p
    fl = lambda c: c + 0.0
    return tuple(fl(c) for c in p) if f == 'float' else (p[0], fl(p[1]), p[2])


def apply(E, w, op, p, v):
    if op == 'set_point': w.set_point(*p, v)
    elif op == 'set_pointv': w.set_pointv(FineVector(*p), v)
    elif op == 'del_point': w.del_point(*p)
    else: w.del_pointv(FineVector(*p))


class Val:
    pass


def history(E, W):
    w, ever = W.w, []
    if E.sym: return ever
    for i in range(E.int('history', 0, 10)):
        p = hpoint(E, 'h', ever)
        op = E.choice('hop', OPS)
        apply(E, w, op, give(E, 'h', p), 'h%d' % i)
        if op.startswith('set'): ever.append(p)
    W.before = dict(w.world)
    for p in W.before: w.set_point(*p, W.before[p]); ever.append(p)
    return ever


@CONTRACTS('lookup after one operation', functions=[VW + o for o in OPS] + [VW + 'get_point'], cover=['other', 'hit'])
def c_step(E):
    """from any world state: the effect of one operation on every later lookup"""
    W = World(E, size=64, bounds=False)
    w = W.w
    ever = history(E, W)
    v = Val()
    op = E.choice('op', OPS)
    p = hpoint(E, 'p', ever)
    apply(E, w, op, give(E, 'p', p), v)
    q = hpoint(E, 'q', ever + [p])
    here = bool(E.And(*[a == b for a, b in zip(p, q)]))
    got = w.get_point(*give(E, 'q', q))
    if here:
        E.cover('hit')
        if op.startswith('set'): E.check('a lookup returns the value last set', got is v)
        else: E.check('a deleted position is vacant', got is None)
    else:
        E.cover('other')
        E.check('other positions keep their voxel', W.same(q))
        if E.sym: E.check('a lookup returns what is stored', E.And(E.Iff(got is None, E.Not(W.has0(q))), True if got is None else got._term == W.V0(*W._k(q))))
        else: E.check('a lookup returns what is stored', got is W.before.get(q))


@CONTRACTS('extremes after one operation', functions=[VW + o for o in OPS] + [VW + '_update_boundaries'], cover=['set', 'del'])
def c_ext(E):
    W = World(E, size=E.choice('size', [1, 8, 64]) if not E.sym else E.int('size', 1, 1 << 16))
    w = W.w
    ever = history(E, W)
    M = 1 << 20
    if E.sym:
        for a in AX:
            setattr(w, a + 'max', E.int(a + 'max', -M, M)); setattr(w, a + 'min', E.int(a + 'min', -M, M))
    old = {m: getattr(w, m) for a in AX for m in (a + 'min', a + 'max')}
    inside = lambda w, r: E.And(*[E.And(getattr(w, a + 'min') <= c, c <= getattr(w, a + 'max')) for a, c in zip(AX, r)])
    r = hpoint(E, 'r', ever)
    rin = True
    if E.sym: rin = inside(w, r)       # r: an arbitrary position set in the past (the invariant holds for it before)
    elif not ever: r = None
    elif r not in ever: r = E.choice('r.ever', ever)
    op = E.choice('op', OPS)
    p = hpoint(E, 'p', ever)
    apply(E, w, op, give(E, 'p', p), Val())
    for a, c in zip(AX, p):
        lo, hi = getattr(w, a + 'min'), getattr(w, a + 'max')
        if op.startswith('set'):
            E.cover('set')
            E.check('the extremes bound the new position', E.And(lo <= c, c <= hi))
            E.check('an extreme is a set position or unchanged', E.And(E.Or(lo == old[a + 'min'], lo == c), E.Or(hi == old[a + 'max'], hi == c)))
        else:
            E.cover('del')
            E.check('deleting leaves the extremes', E.And(lo == old[a + 'min'], hi == old[a + 'max']))
    if r is not None: E.check('the extremes still bound every earlier position', E.Implies(rin, inside(w, r)))


@CONTRACTS('new world', functions=[VW + '__init__', VW + 'get_point'], cover=['done'])
def c_init(E):
    n = E.int('size', 1, 1 << 16)
    w = VoxelWorld(n) if E.bool('sized') else VoxelWorld()
    E.check('a new world is empty', w.get_point(*give(E, 'q', point(E, 'q'))) is None)
    E.check('initial extremes', E.And(*[getattr(w, a + 'max') == 0 for a in AX], *[getattr(w, a + 'min') == w.size for a in AX]))
    E.cover('done')
