from pyvc.hapi import Registry
from hlib import *
from hworld import World, VW, point
from redeclipse import aftereffects as ae
CONTRACTS = Registry()
AE = 'redeclipse.aftereffects.'
OPT = {'generic_range': 3}
BASE = [VW + 'set_point', VW + 'del_point', VW + 'get_point', 'redeclipse.objects.cube.newtexcube']


def world(E):
    size = E.int('size', 1, 1 << 15) if E.sym else E.int('size', 1, 9)
    zmax = E.int('zmax', 0, 1 << 15) if E.sym else E.int('zmax', 0, size)
    W = World(E, size=size, bounds=False, lo=0, hi=9 if E.sym else size - 1, voxels=60)
    W.w.zmax = zmax
    E.assume(zmax <= size)       # the world's voxels lie inside it
    if not E.sym:
        for p in list(W.w.world): W.w.set_point(*p, W.w.world[p])
        zmax = W.w.zmax
    return W, W.w, size, zmax


def where(E, size):
    if E.sym: return point(E, 'q')
    return tuple(E.int('q.' + a, -2, size + 2) for a in 'xyz')


def inside(E, q, size): return E.And(*[E.And(0 <= c, c < size) for c in q])


def count(E, cs): return sum([E.ite(c, 1, 0) for c in cs])


def full(E, W, name, spec):
    """concrete mode: every position of the neighbourhood"""
    for x in range(-2, W.size + 2):
        for y in range(-2, W.size + 2):
            for z in range(-2, W.size + 2): spec((x, y, z))


def judge(E, W, size, spec):
    if E.sym:
        q = point(E, 'q')
        spec(q)
    else: full(E, W, 'q', spec)


def heights(E, size):
    m = E.choice('height', ['none', 'none by default', 'given'])
    if m == 'given':
        h = E.int('h', 1, 1 << 15) if E.sym else E.int('h', 1, size)
        E.assume(h <= size)
        return {'height': h}, h
    return ({'height': None} if m == 'none' else {}), size


def faces(E, effect, need, label):
    W, w, size, zmax = world(E)
    kw, h = heights(E, size)
    effect(w, **kw)
    def spec(q):
        ext = [q[0] == 0, q[1] == 0, q[2] == 0, q[0] == size - 1, q[1] == size - 1, q[2] == size - 1]
        on = bool(E.And(inside(E, q, size), q[2] < h, count(E, ext) >= need))
        if on:
            E.check('every position of the %s is set' % label, W.solid(q, [2] * 6))
            E.cover('on')
        else:
            E.check('nothing else changes', W.same(q))
            E.cover('off')
    judge(E, W, size, spec)


@CONTRACTS('box', functions=[AE + 'box'] + BASE, cover=['on', 'off'], opts=OPT)
def c_box(E): faces(E, ae.box, 1, 'six faces')


@CONTRACTS('box outline', functions=[AE + 'box_outline'] + BASE, cover=['on', 'off'], opts=dict(OPT, budget=400))
def c_outline(E): faces(E, ae.box_outline, 2, 'outer edges')


@CONTRACTS('grid', functions=[AE + 'grid'] + BASE, cover=['on', 'off'], opts=OPT)
def c_grid(E):
    W, w, size, zmax = world(E)
    dflt = E.bool('default')
    sp = 24 if dflt else (E.int('spacing', 1, 1 << 15) if E.sym else E.int('spacing', 1, 5))
    ae.grid(w) if dflt else ae.grid(w, size=sp)
    def spec(q):
        ok = E.And(inside(E, q, size), E.Not(W.has0(q)), count(E, [c % sp == 0 for c in q]) >= 2)
        E.check('only vacant positions inside the world, on lines of the spacing', E.Or(W.same(q), E.And(ok, W.solid(q, [2] * 6))))
        if E.And(ok, q[2] < zmax):
            E.check('the grid lines are drawn up to the highest voxel', W.solid(q, [2] * 6)); E.cover('on')
        else: E.cover('off')
    judge(E, W, size, spec)


class PF:
    """value of the position function at (x, y, z)"""
    def __init__(self, src, p): self.src = src; self.p = p
    def __lt__(self, d): return self.src.cmp('draw_exceeds', d, self.p)
    def __ge__(self, d): return self.src.E.Not(self.src.cmp('draw_exceeds', d, self.p))
    def __le__(self, d): return self.src.cmp('draw_reaches', d, self.p)
    def __gt__(self, d): return self.src.E.Not(self.src.cmp('draw_reaches', d, self.p))


class Draw:
    def __init__(self, src):
        from pyvc import core
        self.src = src; self.used = False; self.at = list(core.ENG.binders())
    def __gt__(self, f): return self.src.cmp('draw_exceeds', self, f.p)
    def __le__(self, f): return self.src.E.Not(self.src.cmp('draw_exceeds', self, f.p))
    def __ge__(self, f): return self.src.cmp('draw_reaches', self, f.p)
    def __lt__(self, f): return self.src.E.Not(self.src.cmp('draw_reaches', self, f.p))


class Source:
    """random source and position function; whether the draw made at a position exceeds the function there is an arbitrary
    predicate of the position"""
    def __init__(self, E):
        self.E = E
        if E.sym:
            E.patch(ae, 'random', self)
            return
        E.patch_random()
        self.calls = []
    def __getattr__(self, n):
        from pyvc import core
        raise core.Unsupported('random.' + n)
    def random(self): return Draw(self)
    def exceeds(self, name, p):
        import z3
        from pyvc import core
        I = z3.IntSort()
        return core.SymBool.mk(z3.Function(name, I, I, I, z3.BoolSort())(*[core.num(c).z() for c in p]))
    def cmp(self, name, d, p):
        from pyvc import core
        self.E.check('one fresh draw for each position', not d.used and d.at == core.ENG.binders())
        d.used = True
        return self.exceeds(name, p)
    def f(self, x, y, z):
        if self.E.sym: return PF(self, (x, y, z))
        v = self.E.rng.choice([0, 1, 0.5, -0.25, 2]) if not self.calls else (self.calls[-1][1] * 31 + 0.13) % 1.0
        self.calls.append(((x, y, z), v))
        return v
    def hit(self, q):
        if self.E.sym: return self.exceeds('draw_exceeds', q)
        if not hasattr_(self, 'table'):
            self.E.check('one fresh draw for each position', len(self.E.draws) == len(self.calls) == len({p for p, v in self.calls}))
            self.table = {p: d > v for (p, v), d in zip(self.calls, self.E.draws)}
        return self.table.get(q, False)


def hasattr_(o, n): return n in o.__dict__


@CONTRACTS('decay', functions=[AE + 'decay'] + BASE, cover=['on', 'off'], opts=OPT)
def c_decay(E):
    W, w, size, zmax = world(E)
    S = Source(E)
    ae.decay(w, S.f)
    def spec(q):
        E.check('decay only removes', E.Or(W.same(q), W.absent(q)))
        reach = E.And(inside(E, q, size), q[2] < zmax)
        if E.And(S.hit(q), reach):
            E.check('removed where the draw exceeds the position function', W.absent(q)); E.cover('on')
        elif E.sym or True:
            E.check('removed nowhere else', E.Or(W.same(q), E.And(S.hit(q), W.absent(q)))); E.cover('off')
    judge(E, W, size, spec)


@CONTRACTS('growth', functions=[AE + 'growth'] + BASE, cover=['on', 'off'], opts=OPT)
def c_growth(E):
    W, w, size, zmax = world(E)
    S = Source(E)
    ae.growth(w, S.f)
    def spec(q):
        ok = E.And(inside(E, q, size), E.Not(W.has0(q)), S.hit(q))
        E.check('growth only fills vacant positions inside the world', E.Or(W.same(q), E.And(ok, W.solid(q, [2] * 6))))
        if E.And(ok, q[2] < zmax):
            E.check('grows where the draw exceeds the position function', W.solid(q, [2] * 6)); E.cover('on')
        else: E.cover('off')
    judge(E, W, size, spec)


class Upm:
    pass


@CONTRACTS('end cap', functions=[AE + 'endcap', 'redeclipse.prefabs.construction_kit.cube_points', VW + 'set_pointv'], cover=['on', 'off'], opts=OPT)
def c_endcap(E):
    W = World(E, bounds=False, lo=-8, hi=24)
    u = Upm()
    if E.sym:
        import z3
        from pyvc import rt, core
        I = z3.IntSort()
        n = E.int('doors', 0, 1 << 16)
        b = rt.newbinders(1)[0]
        fs = [z3.Function('door' + a, I, I) for a in 'xyz']
        j = z3.Int('jq')
        for g in fs: core.ENG.define(z3.ForAll([j], z3.And(g(j) >= -(1 << 16), g(j) <= 1 << 16)))
        el = (CoarseVector(*[core.ENG.atom(g(b), (-(1 << 16), 1 << 16), False) for g in fs]), 'typ', 'ori')
        seg = rt.Seg(None, [b], z3.And(b >= 0, b < core.num(n).z()), el, 0, n)
        u.unoccupied = rt.TList()
        u.unoccupied.segs = [seg]
    else:
        u.unoccupied = [(CoarseVector(*[E.int('d.' + a, -1, 3) for a in 'xyz']), '1-1', '+x') for _ in range(E.int('doors', 0, 4))]
    ae.endcap(W.w, u)
    def spec(q):
        t = tuple(E.floor(c / 8) for c in q)
        if E.sym:
            i = z3.Int('iq')
            d = seg.at([i])[0]
            on = core.SymBool.mk(core.exists([i], z3.And(seg.guard_at([i]), *[core.bz(a == b) for a, b in zip(xyz(d), t)])))
        else: on = any(xyz(d[0]) == t for d in u.unoccupied)
        if on:
            E.check('the block at every open door is filled', W.solid(q, [2] * 6)); E.cover('on')
        else:
            E.check('nothing else changes', W.same(q)); E.cover('off')
    if E.sym: spec(point(E, 'q'))
    else:
        for x in range(-9, 34):
            for y in range(-9, 34, 1 if E.rng.random() < .2 else 7):
                for z in range(-9, 34, 1 if E.rng.random() < .2 else 5): spec((x, y, z))


GRADS = {'vertical_gradient': -1, 'gradient3': -1, 'vertical_gradient2': -1, 'vertical_gradient2inv': 1}


@CONTRACTS('gradients', functions=[AE + g for g in GRADS], cover=['done'])
def c_grad(E):
    """every integer height 0..256 (evaluated exhaustively), any column"""
    g = E.choice('gradient', sorted(GRADS))
    f, s = getattr(ae, g), GRADS[g]
    p = [E.int('x', -(1 << 15), 1 << 15), E.int('y', -(1 << 15), 1 << 15)]
    p2 = [E.int('x2', -(1 << 15), 1 << 15), E.int('y2', -(1 << 15), 1 << 15)]
    kw = {}
    if g == 'vertical_gradient' and E.bool('sloped'): kw['slope'] = E.choice('slope', [256, 300, 512, 1024])
    for z in range(0, 257) if E.sym else [E.int('z', 0, 256)]:
        v = f(p[0], p[1], z, **kw)
        E.check('the gradient stays in 0..1', E.And(0 <= v, v <= 1))
        if z < 256:
            u = f(p2[0], p2[1], z + 1, **kw)
            E.check('the gradient is monotone in height', (u - v) * s >= 0)
    E.cover('done')
