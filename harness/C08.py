from pyvc.hapi import Registry
from hlib import *
from redeclipse.prefabs.construction_kit import cube_points, wall_points, column_points
CONTRACTS = Registry()
CK = 'redeclipse.prefabs.construction_kit.'


def span(E, n):
    """the half-open interval a cuboid extent stands for"""
    return E.ite(n > 0, 0, n + 1), E.ite(n > 0, n, 1)


def point(E, name, lo, hi): return tuple(E.int(name + '.' + a, lo, hi) for a in 'xyz')


@CONTRACTS('cube_points', functions=[CK + 'cube_points'], cover=['some', 'neg'])
def c_cube(E):
    M = (1 << 20) if E.sym else 9
    n = tuple(E.int('n' + a, -M, M) for a in 'xyz')
    pts = E.collect(cube_points(*n))
    sp = [span(E, t) for t in n]
    inside = lambda p: E.And(*[E.And(lo <= c, c < hi) for c, (lo, hi) in zip(p, sp)])
    def el(p):
        E.check('points are fine vectors', type(p) is FineVector)
        E.check('only points of the box', inside(xyz(p)))
        E.check('integer points', E.And(*[E.floor(c) == c for c in xyz(p)]))
        E.cover('some')
    E.all_elements(pts, el)
    if E.sym:
        q = point(E, 'q', -M, M)
        E.assume(inside(q))
        E.check('every point of the box', E.contains(pts, FineVector(*q)))
        if n[0] < 0: E.cover('neg')
    else:
        want = {(i, j, k) for i in range(*sp[0]) for j in range(*sp[1]) for k in range(*sp[2])}
        E.check('every point of the box', {xyz(p) for p in pts} == want)
    E.check('each point once', E.distinct(pts))


def wall_spec(E, size, d, li, lj, p):
    lo, hi = E.ite(size > 0, 0, size), E.ite(size > 0, size, 0)
    u = UNIT[d]
    ax = [i for i in range(3) if u[i]][0]
    rest = [i for i in range(3) if i != ax]
    plane = p[ax] == (size - 1 if sum(u) > 0 else 0)
    i, j = p[rest[0]], p[rest[1]]
    return E.And(plane, lo <= i, i < hi, i <= li, lo <= j, j < hi, j <= lj)


@CONTRACTS('wall_points', functions=[CK + 'wall_points'], cover=['some'])
def c_wall(E):
    M = (1 << 20) if E.sym else 12
    size = E.int('size', -M, M)
    d = E.choice('dir', sorted(UNIT))
    mode = E.choice('limits', ['both', 'i', 'j', 'none'])
    li = E.int('limit_i', -M, M) if mode in ('both', 'i') else None
    lj = E.int('limit_j', -M, M) if mode in ('both', 'j') else None
    if mode in ('none', 'i', 'j'): E.assume(size <= 100)      # the clamps default to 100
    kw = {}
    if li is not None: kw['limit_i'] = li
    if lj is not None: kw['limit_j'] = lj
    dv = getattr(O, d) if E.bool('coarse') else getattr(O, d + '_FINE').fine() / 8 if False else getattr(O, d)
    pts = E.collect(wall_points(size, dv, **kw))
    LI, LJ = (100 if li is None else li), (100 if lj is None else lj)
    def el(p):
        E.check('points are fine vectors', type(p) is FineVector)
        E.check('only points of the clamped square', wall_spec(E, size, d, LI, LJ, xyz(p)))
        E.cover('some')
    E.all_elements(pts, el)
    if E.sym:
        q = point(E, 'q', -M - 2, M + 2)
        E.assume(wall_spec(E, size, d, LI, LJ, q))
        E.check('every point of the clamped square', E.contains(pts, FineVector(*q)))
    else:
        r = range(min(size, 0) - 1, max(size, 0) + 1)
        want = {(i, j, k) for i in r for j in r for k in r if wall_spec(E, size, d, LI, LJ, (i, j, k))}
        E.check('every point of the clamped square', {xyz(p) for p in pts} == want)
    E.check('each point once', E.distinct(pts))


@CONTRACTS('column_points', functions=[CK + 'column_points'], cover=['some'])
def c_column(E):
    M = (1 << 18) if E.sym else 40
    n = E.int('n', -M, M)
    d = E.choice('dir', sorted(UNIT))
    u = UNIT[d]
    pts = E.collect(column_points(n, getattr(O, d)))
    def el(p):
        E.check('points are fine vectors', type(p) is FineVector)
        k = sum(c * s for c, s in zip(xyz(p), u))
        E.check('multiples of the unit step', E.And(0 <= k, k < n, E.floor(k) == k, eq3(E, p, [s * k for s in u])))
        E.cover('some')
    E.all_elements(pts, el)
    i = E.int('i', -M, M)
    if E.sym:
        E.assume(E.And(0 <= i, i < n))
        E.check('every multiple', E.contains(pts, FineVector(*[s * i for s in u])))
    else:
        E.check('every multiple', [xyz(p) for p in pts] == [tuple(s * k for s in u) for k in range(n)])
    E.check('each point once', E.distinct(pts))
