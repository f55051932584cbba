from pyvc.hapi import Registry
from hlib import *
CONTRACTS = Registry()
V = 'redeclipse.vector.'
H = 1 << 20


@CONTRACTS('rotation by angle', functions=[V + 'BaseVector.rotate'], cover=['end'])
def by_angle(E):
    k = E.choice('kind', 'CFB')
    f = E.choice('form', ['int', 'half'])
    a = vec(E, 'a', k, f)
    a0 = xyz(a)
    q = E.choice('quarter', list(range(-400, 401)))
    r = a.rotate(90 * q)
    E.check('exact quarter turns', eq3(E, r, turn(a0, q)))
    E.check('kind kept', same_kind(r, k))
    E.check('operand unchanged', eq3(E, a, a0))
    E.cover('end')


@CONTRACTS('rotation by direction', functions=[V + 'BaseVector.rotate'], cover=['end'])
def by_dir(E):
    k = E.choice('kind', 'CFB')
    f = E.choice('form', ['int', 'half'])
    a = vec(E, 'a', k, f)
    a0 = xyz(a)
    d = E.choice('dir', sorted(DIRS))
    fine = E.bool('finedir')
    r = a.rotate(getattr(O, d + '_FINE') if fine else card(d))
    E.check('direction d is the quarter turn of east to d', eq3(E, r, turn(a0, DIRS[d])))
    E.check('kind kept', same_kind(r, k))
    E.cover('end')


@CONTRACTS('composition', functions=[V + 'BaseVector.rotate', V + 'CoarseVector.__add__', V + 'FineVector.__add__'], cover=['end'])
def composition(E):
    k = E.choice('kind', 'CF')
    a, b = vec(E, 'a', k, 'half', lo=-H // 2, hi=H // 2), vec(E, 'b', k, 'half', lo=-H // 2, hi=H // 2)
    p = E.choice('p', list(range(-8, 9)))
    q = E.choice('q', list(range(-12, 13)))
    E.check('turns add up', eq3(E, a.rotate(90 * p).rotate(90 * q), xyz(a.rotate(90 * (p + q)))))
    E.check('four quarter turns are the identity', eq3(E, a.rotate(90 * p).rotate(90 * p).rotate(90 * p).rotate(90 * p), xyz(a)))
    E.check('rotation distributes over addition', eq3(E, (a + b).rotate(90 * p), xyz(a.rotate(90 * p) + b.rotate(90 * p))))
    E.cover('end')


@CONTRACTS('rotation about an offset centre', functions=[V + 'BaseVector.offset_rotate'], cover=['end'])
def offset(E):
    ka, kc = E.choice('kinds', ['FF', 'CC', 'CF', 'FC'])
    a = vec(E, 'a', ka, E.choice('fa', ['int', 'half']), lo=-H // 32, hi=H // 32)
    c = vec(E, 'c', kc, E.choice('fc', ['int', 'half']), lo=-H // 32, hi=H // 32)
    a0, c0 = xyz(a), xyz(c)
    if E.bool('by_angle'):
        q = E.choice('q', list(range(-12, 13)))
        r = a.offset_rotate(90 * q, offset=c)
    else:
        d = E.choice('dir', sorted(DIRS))
        q = DIRS[d]
        r = a.offset_rotate(card(d), offset=c)
    mixed = ka != kc
    sa, sc = (8 if mixed and ka == 'C' else 1), (8 if mixed and kc == 'C' else 1)
    A = [x * sa for x in a0]; Cc = [x * sc for x in c0]
    w = turn([x + y for x, y in zip(A, Cc)], q)
    E.check('conjugation by the centre', eq3(E, r, [x - y for x, y in zip(w, Cc)]))
    E.check('height kept', r.z == A[2])
    E.check('kind', same_kind(r, 'F' if mixed else ka))
    E.check('operands unchanged', E.And(eq3(E, a, a0), eq3(E, c, c0)))
    E.cover('end')


@CONTRACTS('named directions', functions=['redeclipse.vector.orientations (module constants)'], cover=['end'])
def named(E):
    for n, u in sorted(UNIT.items()):
        v = getattr(O, n)
        E.check('direction %s' % n, type(v) is CoarseVector and (v.x, v.y, v.z) == u)
        w = getattr(O, n + '_FINE')
        E.check('fine direction %s' % n, type(w) is FineVector and (w.x, w.y, w.z) == u)
    order = ['EAST', 'NORTH', 'WEST', 'SOUTH']
    for i, n in enumerate(order):
        E.check('successive quarter turns', getattr(O, n).rotate(90) == getattr(O, order[(i + 1) % 4]))
    E.check('cardinals', [xyz(v) for v in O.CARDINALS] == [UNIT[n] for n in order])
    for n, (p, q) in {'NORTHWEST': ('NORTH', 'WEST'), 'NORTHEAST': ('NORTH', 'EAST'), 'SOUTHWEST': ('SOUTH', 'WEST'), 'SOUTHEAST': ('SOUTH', 'EAST')}.items():
        E.check('diagonal %s' % n, xyz(getattr(O, n)) == tuple(s + t for s, t in zip(UNIT[p], UNIT[q])))
    E.check('self', xyz(O.SELF) == (0, 0, 0))
    E.check('tile centre', xyz(O.TILE_CENTER) == (4, 4, 0) and xyz(O.HALF_HEIGHT) == (0, 0, 4) and xyz(O.VOXEL_OFFSET) == (.5, .5, .5))
    for n in order + ['ABOVE', 'BELOW']: 
        if n in DIRS: E.check('name of %s' % n, O.n(getattr(O, n)) == n)
    for n in order:
        g = O.get_vector_rotation(getattr(O, n))
        E.check('angle of %s' % n, type(g) is int and (g - 90 * DIRS[n]) % 360 == 0)
    E.cover('end')


@CONTRACTS('yaw', functions=['redeclipse.vector.orientations.rotate_yaw'], cover=['end'])
def yaw(E):
    a = E.int('angle', -(1 << 20), 1 << 20)
    d = E.choice('dir', sorted(DIRS))
    r = O.rotate_yaw(a, card(d))
    E.check('yaw adds the angle of the direction modulo 360', E.And(r >= 0, r < 360, (r - a - 90 * DIRS[d]) % 360 == 0))
    bad = E.choice('bad', ['ABOVE', 'BELOW', 'NORTHEAST', 'SELF'])
    E.check('other directions are refused', E.raises(lambda: O.rotate_yaw(a, getattr(O, bad)), Exception) is not None)
    E.cover('end')
