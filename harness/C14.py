from pyvc.hapi import Registry
from hupm import *
CONTRACTS = Registry()
W = UP + 'weighted_choice'


class Probs:
    """transition probabilities of an arbitrary room: some positive number for every room type"""
    def __init__(self, E): self.E = E
    def get(self, k, d=None):
        import z3
        from pyvc import core
        if not isinstance(k, core.Opaque): raise core.Unsupported('room type')
        p = core.OpF(z3.Function('probability', z3.IntSort(), z3.RealSort())(k._term))
        core.ENG.fact(p.e > 0, p.e)
        return p


class Prev:
    room_type = 'prev'
    def __init__(self, probs): self.probs = probs
    def get_transition_probs(self): return self.probs


class Kind:
    def __init__(self, t): self.room_type = t


def candidates(E):
    """a non-empty list of candidate room types (with their kinds)"""
    if not E.sym:
        kinds = ['hallway', 'stair', 'platform', 'odd']
        n = E.int('n', 1, 7)
        probs = {k: E.choice('p', [1, 0.5, 0.1, 0.7, 3.7, 8.8, 0.3, 2]) for k in kinds if E.bool('known')}
        return [Kind(E.choice('kind', kinds)) for _ in range(n)], Prev(probs)
    import z3
    from pyvc import rt, core
    I = z3.IntSort()
    n = E.int('n', 1, 1 << 12)
    b = rt.newbinders(1)[0]
    idf, rt_ = z3.Function('candidate', I, I), z3.Function('kind_of', I, I)
    j, j2 = z3.Int('jq'), z3.Int('jq2')
    core.ENG.define(z3.ForAll([j, j2], z3.Implies(idf(j) == idf(j2), j == j2)))
    t = rt.TList()
    t.segs = [rt.Seg(None, [b], z3.And(b >= 0, b < core.num(n).z()), core.Opaque(idf(b), 'room type', {'room_type': core.Opaque(rt_(idf(b)), 'kind')}), 0, n)]
    return t, Prev(Probs(E))


def weights(E):
    """a non-empty list of (candidate, weight >= 0)"""
    if not E.sym:
        n = E.int('n', 1, 1000 if E.rng.random() < .1 else 6)
        w = E.choice('scale', [0.1, 0.7, 1, 1e-3, 8.8])
        return [('c%d' % i, E.choice('w', [0, w, w, w, 3 * w])) for i in range(n)]
    import z3
    from pyvc import rt, core
    n = E.int('n', 1, 1 << 20)
    b = rt.newbinders(1)[0]
    idf, w = z3.Function('candidate', z3.IntSort(), z3.IntSort()), z3.Function('weight', z3.IntSort(), z3.RealSort())
    j = z3.Int('jq')
    core.ENG.define(z3.ForAll([j], w(j) >= 0, patterns=[w(j)]))
    t = rt.TList()
    t.segs = [rt.Seg(None, [b], z3.And(b >= 0, b < core.num(n).z()), (core.Opaque(idf(b), 'candidate'), core.OpF(w(b))), 0, n)]
    return t


def some_positive(E, ch):
    if not E.sym: return E.assume(any(w > 0 for c, w in ch))
    import z3
    from pyvc import core
    k = E.int('k', 0, 1 << 20)
    E.assume(k < E.length(ch))
    E.assume(ch[k][1] > 0)


@CONTRACTS('weighted choice', functions=[W], cover=['done'])
def c_weighted(E):
    ch = weights(E)
    some_positive(E, ch)
    E.patch_random()
    c = UnusedPositionManager.weighted_choice(ch)
    if E.sym:
        import z3
        from pyvc import core
        r = [core.OpF(e) for e in drawn(core.ENG)]
        E.check('one draw', len(r) == 1)
        E.check('the result is an offered candidate', hit(E, ch, c, False))
        E.check('a candidate of weight zero only at the edge', E.Or(r[0] == 0, hit(E, ch, c, True)))
    else:
        E.check('the result is an offered candidate', any(c is x for x, w in ch))
        E.check('a candidate of weight zero only at the edge', E.draws[-1] == 0 or any(c is x and w > 0 for x, w in ch))
    E.cover('done')


def drawn(eng):
    """the terms of the random draws made so far"""
    from pyvc import rt
    seen = {}
    for p in eng.pc:
        for c in rt.free_consts(p):
            if str(c).startswith('uniform!') or str(c).startswith('random!'): seen[str(c)] = c
    return list(seen.values())


def hit(E, ch, c, positive):
    import z3
    from pyvc import core
    if not isinstance(c, core.Opaque): return False
    s, = ch.get_segs()
    return core.SymBool.mk(z3.Exists(s.binders, z3.And(s.guard, s.elem[0]._term == c._term, s.elem[1].e > 0 if positive else z3.BoolVal(True))))


@CONTRACTS('weights all zero', functions=[W], cover=['done'])
def c_zero(E):
    n = E.int('n', 1, 1 << 12)
    if E.sym:
        import z3
        from pyvc import rt, core
        b = rt.newbinders(1)[0]
        idf = z3.Function('candidate', z3.IntSort(), z3.IntSort())
        ch = rt.TList()
        ch.segs = [rt.Seg(None, [b], z3.And(b >= 0, b < core.num(n).z()), (core.Opaque(idf(b), 'candidate'), core.OpF(z3.RealVal(0))), 0, n)]
    else:
        ch = [('c%d' % i, E.choice('zero', [0, 0.0])) for i in range(min(n, 6))]
        E.patch_random()
    c = UnusedPositionManager.weighted_choice(ch)
    E.check('the result is an offered candidate', hit(E, ch, c, False) if E.sym else any(c is x for x, w in ch))
    E.cover('done')


@CONTRACTS('room stream', functions=[UP + 'random_room_stream'], cover=['done'])
def c_stream(E):
    opts, prev = candidates(E)
    u = UnusedPositionManager(256)
    E.patch_random()
    s = u.random_room_stream(prev, opts)
    s = E.collect(s)
    i = E.int('i', 0, 1 << 12)
    if E.sym:
        E.assume(i < E.length(opts))
        E.check('every candidate is in the stream', E.contains(s, opts[i]))
        E.all_elements(s, lambda x: E.check('nothing else is in the stream', E.contains(opts, x)))
        E.check('no candidate twice', E.distinct(s))
    else:
        E.check('every candidate is in the stream', all(any(x is y for y in s) for x in opts))
        E.check('nothing else is in the stream', all(any(x is y for y in opts) for x in s))
        E.check('no candidate twice', len({id(x) for x in s}) == len(s))
    E.cover('done')


@CONTRACTS('random room', functions=[UP + 'random_room', W], cover=['done'])
def c_room(E):
    opts, prev = candidates(E)
    u = UnusedPositionManager(256)
    E.patch_random()
    c = u.random_room(prev, opts)
    if E.sym:
        from pyvc import core
        E.check('the chosen room is one of the candidates', E.contains(opts, c) if isinstance(c, core.Opaque) else False)
    else: E.check('the chosen room is one of the candidates', any(c is x for x in opts))
    E.cover('done')


@CONTRACTS('position choice', functions=[UP + 'nonrandom_position', UP + 'random_position', W], cover=['chosen', 'none'])
def c_position(E):
    g = Manager(E)
    u = g.u
    E.patch_random()
    how = E.choice('how', ['flavour', 'random'])
    def flavour(x, y, z):
        if E.sym:
            import z3
            from pyvc import core
            f = core.OpF(z3.Function('flavour', *[z3.IntSort()] * 3, z3.RealSort())(*[core.num(c).z() for c in (x, y, z)]))
            core.ENG.fact(f.e >= 0, f.e)
            return f
        return E.rng.choice([0, 0, 1, 0.1, 33.7, x + y + z])
    ex = E.raises(lambda: u.nonrandom_position(flavour) if how == 'flavour' else u.random_position(), Exception)
    if ex is None:
        E.check('the position is one of the open doors', E.contains(u.unoccupied, E.result)); E.cover('chosen')
    else:
        E.cover('none')
        E.check('refused only when nothing is open', E.length(u.unoccupied) == 0 if how == 'flavour' else E.Or(E.length(u.unoccupied) == 0, E.length(u.occupied) == 0 if not E.sym else len0(E, u.occupied)))
    E.check('choosing changes nothing', g.unchanged_doors())


def len0(E, d): return E.length(d.keys()) == 0


@CONTRACTS('flavours', functions=[UP + 'nrp_flavour_vertical', UP + 'nrp_flavour_plain', UP + 'nrp_flavour_center_hole'], cover=['done'])
def c_flavours(E):
    u = UnusedPositionManager(256)
    p = [E.int(a, 0, T) for a in 'xyz']
    f = E.choice('flavour', ['nrp_flavour_vertical', 'nrp_flavour_plain', 'nrp_flavour_center_hole'])
    E.check('a flavour is a weight: never negative on the map', getattr(u, f)(*p) >= 0)
    E.cover('done')


def flagged(n, m):
    """a room type with n options, and a room of it (m is None) or of another type with m options"""
    from redeclipse.prefabs import Room
    class Offered(Room): pass
    class Other(Room): pass
    if n is not None: Offered._randflags = (True,) * n
    if m is not None: Other._randflags = (True,) * m
    return Offered, Other


@CONTRACTS('random options', functions=['redeclipse.prefabs.Room.randOpts'], cover=['same type', 'another type', 'no options'])
def c_options(E):
    n = E.choice('number of options', [None, 1, 2, 3, 4, 5])
    cls, other = flagged(n, E.choice('options of the other type', [None, 1, 3]))
    same = E.bool('same type')
    prev = (cls if same else other)(CoarseVector(1, 2, 3), randflags=None)
    before = [E.bool('option') for _ in range(n or 0)]
    if same and n: prev._randflags = list(before)
    E.patch_random()
    kw = cls.randOpts(prev)
    if n is None:
        E.check('a type without options gets none', len(kw) == 0); E.cover('no options'); return
    E.check('only the options are drawn', list(kw) == ['randflags'])
    f = [bool(x) for x in kw['randflags']]
    E.check('one value per option', len(f) == n)
    E.check('the options of the previous room stay as they were', not same or [bool(x) for x in prev._randflags] == before)
    E.check('the options of the type stay as they were', cls._randflags == (True,) * n)
    if same:
        E.check('a room of the same type differs in exactly one option', sum(a != b for a, b in zip(f, before)) == 1); E.cover('same type')
    else: E.cover('another type')
    r = cls(CoarseVector(1, 2, 3), **kw)
    E.check('the room has the drawn options', [bool(x) for x in r._randflags] == f)


@CONTRACTS('transition probabilities', functions=['redeclipse.prefabs.Room.get_transition_probs', 'redeclipse.prefabs.distributions.DistributionManager.for_class'], cover=['done'])
def c_probs(E):
    import redeclipse.prefabs as P
    from redeclipse.prefabs import distributions as D
    managers = [c for n, c in sorted(vars(D).items()) if isinstance(c, type) and issubclass(c, D.DistributionManager) and c.transition_probabilities]
    man = managers[E.choice('manager', range(len(managers)))]
    E.patch(P, 'DISTMAN', man())
    kinds = sorted({a for p in man.transition_probabilities for a in p}) + ['unknown kind']
    rooms = []
    for nm in ('first', 'second'):                        # two rooms: what one is told does not depend on the other
        class R(P.Room): room_type = E.choice(nm + ' kind', kinds)
        rooms.append(R(CoarseVector(1, 2, 3)))
    for r in rooms + rooms[:1]:
        want = {b: p for (a, b), p in man.transition_probabilities.items() if a == r.room_type}
        E.check('a room is given exactly the transitions listed from its kind', dict(r.get_transition_probs()) == want)
        E.check('the listed probabilities are positive', all(p > 0 for p in want.values()))
    E.cover('done')
