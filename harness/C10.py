from pyvc.hapi import Registry
from hlib import *
import random as _rnd
from redeclipse.prefabs import construction_kit as ck
from hworld import World, VW, point
CONTRACTS = Registry()
FN = 'redeclipse.prefabs.construction_kit.'


class Kit(ck.ConstructionKitMixin):
    pos = CoarseVector(0, 0, 0)
    orientation = O.EAST


def shape(E):
    """an arbitrary finite sequence of points (repetitions allowed)"""
    if E.sym:
        import z3
        from pyvc import rt, core
        I = z3.IntSort()
        n = E.int('n', 0, 1 << 20)
        b = rt.newbinders(1)[0]
        f = [z3.Function('p' + a, I, I) for a in 'xyz']
        el = FineVector(*[core.ENG.atom(g(b), (-(1 << 20), 1 << 20), False) for g in f])
        j = z3.Int('jq')
        for g in f: core.ENG.define(z3.ForAll([j], z3.And(g(j) >= -(1 << 20), g(j) <= 1 << 20)))
        seg = rt.Seg(None, [b], z3.And(b >= 0, b < core.num(n).z()), el, 0, n)
        return rt.Seq([seg]), None
    pts = [FineVector(*[E.int('p.' + a, -3, 9) for a in 'xyz']) for _ in range(E.int('n', 0, 8))]
    if E.bool('dup') and pts: pts.append(pts[0])
    if E.bool('floats'): pts = [FineVector(float(p.x), float(p.y), float(p.z)) for p in pts]
    return pts, pts


class Draws:
    """random source whose i-th draw (the one made for the i-th point) is named"""
    def __init__(self, E):
        self.E = E; self.calls = 0; self.log = []
        if E.sym:
            import z3
            self.D = [z3.Function('draw%d' % k, z3.IntSort(), z3.RealSort()) for k in range(3)]
            from pyvc import core
            j = z3.Int('jd')
            for d in self.D: core.ENG.define(z3.ForAll([j], z3.And(0 <= d(j), d(j) < 1)))
    def at(self, k, t):
        from pyvc import core
        e = self.D[k](t)
        return core.OpF(e)
    def random(self):
        k, self.calls = self.calls, self.calls + 1
        if self.E.sym:
            from pyvc import core
            return self.at(k, core.ENG.binders()[-1])
        v = self.E.real('draw')
        v = min(v, 1 - 2.0 ** -53)
        self.log.append(v)
        return v


def textures(E):
    form = E.choice('tex', ['default', 'int', 'six'])
    if form == 'default': return {}, [2] * 6
    if form == 'int':
        t = E.int('texture', 0, 65535)
        return {'tex': t}, [t] * 6
    ts = [E.int('tx%d' % i, 0, 65535) for i in range(6)]
    return {'tex': ts}, ts


def kit_with(E, seq, calls):
    k = Kit()
    def gen(self_, *a, **kw):
        calls.append((a, kw))
        return seq
    Kit.x_any = gen
    E.cleanup.append(lambda: delattr(Kit, 'x_any'))
    return k


@CONTRACTS('x draws', functions=[FN + 'ConstructionKitMixin.x', FN + 'subtract_or_skip', VW + 'set_pointv', VW + 'del_pointv', 'redeclipse.objects.cube.newtexcube', 'redeclipse.objects.cube.texturize',
                                 'redeclipse.objects.cube.newcube', 'redeclipse.objects.cube.setfaces'], cover=['on', 'off', 'prob', 'sub'])
def c_x(E):
    seq, pts = shape(E)
    W = World(E, pts or [], bounds=False)
    calls = []
    k = kit_with(E, seq, calls)
    D = Draws(E)
    E.patch(ck, 'random', D)
    kw, tex = textures(E)
    mode = E.choice('mode', ['set', 'explicit', 'subtract', 'prob', 'sure', 'both'])
    p = None
    if mode == 'explicit': kw['subtract'] = False
    if mode in ('subtract', 'both'): kw['subtract'] = True
    if mode in ('prob', 'both'): p = kw['prob'] = E.real('p', -1, 2)
    if mode == 'sure': kw['prob'] = E.choice('sure', [1, 1.0, 1.1, 2])
    a, b = object(), 17
    k.x('any', W.w, a, key=b, **kw)
    E.check('the shape function gets the shape arguments', len(calls) == 1 and len(calls[0][0]) == 1 and calls[0][0][0] is a and list(calls[0][1]) == ['key'] and calls[0][1]['key'] == b)
    q = point(E, 'q', pts or [])
    on = E.contains(seq, FineVector(*q))
    if E.sym: on = on if isinstance(on, bool) else bool(on)
    if not on:
        E.check('every other voxel stays as it was', W.same(q))
        E.cover('off')
        return
    E.cover('on')
    if mode in ('subtract', 'both'):
        E.check('subtracting removes the shape voxels', W.absent(q)); E.cover('sub')
    elif mode == 'prob':
        E.check('a shape voxel is set with the texture or removed', E.Or(W.absent(q), W.solid(q, tex)))
        E.check('probability one or more always sets', E.Implies(p >= 1, W.solid(q, tex)))
        if E.sym:
            import z3
            from pyvc import core, rt
            s = seq.get_segs()[0]
            i = z3.Int('iq')
            el = s.at([i])
            here = z3.And(s.guard_at([i]), core.bz(rt.sym_eq(el, FineVector(*q))))
            d = D.D[0](i)
            E.check('set only by a draw of at most p', E.Or(p >= 1, W.absent(q), core.SymBool.mk(z3.Exists([i], z3.And(here, d <= core.OpF.of(p).e)))))
            E.check('removed only by a draw above p', E.Or(W.solid(q, tex), core.SymBool.mk(z3.Exists([i], z3.And(here, d > core.OpF.of(p).e)))))
        elif p < 1:
            at = [d for d, v in zip(D.log, pts) if tuple(v) == q]
            E.check('one draw for each point', len(D.log) == len(pts))
            E.check('set only by a draw of at most p', W.absent(q) or any(d <= p for d in at))
            E.check('removed only by a draw above p', not W.absent(q) or any(d > p for d in at))
        E.cover('prob')
    else:
        E.check('every shape voxel is a solid cube with the requested texture', W.solid(q, tex))


@CONTRACTS('x unknown shape', functions=[FN + 'ConstructionKitMixin.x'], cover=['raised'])
def c_unknown(E):
    W = World(E)
    k = Kit()
    name = E.choice('name', ['pyramid', '', 'x', 'Cube', 'cube ', '_cube'])
    e = E.raises(lambda: k.x(name, W.w, FineVector(0, 0, 0)), Exception)
    E.check('an unknown shape raises', e is not None)
    E.check('nothing changes', W.same(point(E, 'q')))
    E.cover('raised')
