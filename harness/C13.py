from pyvc.hapi import Registry
import copy
from hupm import *
from redeclipse.vector.orientations import CARDINALS
import redeclipse.upm as upm_module
CONTRACTS = Registry()
DUMMY = 1 << 8


@CONTRACTS('number of placed rooms', functions=[UP + 'place_rooms'], cover=['placed'], opts={'branch_timeout': 100})
def c_count(E):
    import place
    if not E.sym: return place.concrete_place(E)
    G, m, want = place.place(E)
    E.cover('placed')
    E.check('at most the requested number of rooms, rounded up to the mirror factor', E.Or(G.copies == 0, G.copies - m < want))
    E.check('one link per copy', G.links == G.copies)


@CONTRACTS('placing end caps', functions=[UP + 'endcap'], cover=['cap'], opts={'branch_timeout': 100})
def c_endcap(E):
    g = Manager(E)
    u = g.u
    options = object()
    if E.sym: return sym_endcap(E, g, u, options)
    concrete_endcap(E, g, u)


def fitting(E, u, ks, here, ori):
    """end caps (with one door, of the right direction, placed on the open door) which fit"""
    back = turn(xyz(ori), 2)
    for k in ks:
        for c in CARDINALS:
            ds = k(pos=CoarseVector(2, 2, 3), orientation=c).get_doorways()
            if len(ds) != 1 or xyz(ds[0]['orientation']) != back: continue
            r = k(pos=CoarseVector(2, 2, 3) - (ds[0]['offset'] - here + ori), orientation=c)
            if all(legal(E, xyz(p)) and p not in u.occupied for p in r.get_positions()): yield r


def concrete_endcap(E, g, u):
    E.patch_random()
    ks = kinds(E)
    n, before, doors = len(u.rooms), dict(u.occupied), list(u.unoccupied)
    u.endcap(possible_endcaps=ks)
    new = u.rooms[n:]
    claimed = dict(before)
    for r in new:
        E.cover('cap')
        E.check('only offered end caps are placed', any(r.kind is k for k in ks))
        E.check('every end cap belongs to an open door', any(xyz(q['orientation']) == turn(xyz(o), 2) and q['offset'] + CoarseVector(*xyz(o)) == p for q in r.get_doorways() for (p, _, o) in doors))
        for p in r.get_positions():
            E.check('the cap stays inside the map', legal(E, xyz(p)))
            E.check('the tiles of the cap are free', p not in before and claimed.get(p, r) is r)
            claimed[p] = r
    E.check('rooms placed before stay', all(u.occupied.get(p) is x for p, x in before.items()))
    for (p, prev, o) in doors:
        if not any(xyz(q['orientation']) == turn(xyz(o), 2) and q['offset'] + CoarseVector(*xyz(o)) == p for r in new for q in r.get_doorways()): E.check('a cap that fits is registered', not any(True for _ in fitting(E, u, ks, p, o)))


def sym_endcap(E, g, u, options):
    import z3
    from pyvc import rt, core
    I = z3.IntSort()
    def key(pos, prev, ori): return [core.num(c).z() for c in xyz(pos)] + [prev._term] + [core.num(c).z() for c in xyz(ori)]
    has, which = z3.Function('cap_fits', *[I] * 7 + [z3.BoolSort()]), z3.Function('cap_for', *[I] * 8)
    done = rt.TList()
    def cap(pos, prev, ori, possible_endcaps=None):
        if possible_endcaps is not options: raise core.Unsupported('other end caps')
        if not core.SymBool.mk(has(*key(pos, prev, ori))): return None
        return core.Opaque(which(*key(pos, prev, ori)), 'room')
    E.patch(u, '_room_cap_real', cap, must=True)                       # contract: 'end caps for a door'
    E.patch(u, '_register_room', lambda r: done.append(r), must=True)  # contract: C11
    u.endcap(possible_endcaps=options)
    d = g.old_door()
    if core.SymBool.mk(has(*key(*d))):
        E.cover('cap')
        E.check('a cap that fits is registered', rt.contains(done, core.Opaque(which(*key(*d)), 'room')))
    def registered(r):
        X, O_, D, nd = g.open0
        b = rt.newbinders(1)[0]
        k = [f(b) for f in X] + [O_(b)] + [f(b) for f in D]
        E.check('only the chosen caps are registered', core.SymBool.mk(core.exists([b], z3.And(b >= 0, b < core.num(nd).z(), has(*k), which(*k) == r._term))))
    E.all_elements(done, registered)


def takes(obj, name, n):
    import inspect
    try: return bool(inspect.signature(getattr(obj, name)).bind(*range(n)))
    except (AttributeError, TypeError): return False


class Kind:
    """an arbitrary room class: where its doors are depends on the orientation and the random options it is built with"""
    def __init__(self, E, t, table=None, plain=False):
        self.E = E
        self.plain = plain
        self.t = t
        self.table = table

    @property
    def room_type(self): return 'kind%d' % (self.t % 2)

    def randOpts(self, prev):
        if self.E.sym:
            return {} if self.plain else {'randflags': self.E.eng.fresh_int('options', 1, DUMMY)}
        return {} if self.t % 3 == 0 else {'randflags': self.E.rng.randint(1, 3)}

    def __call__(self, pos, orientation=None, randflags=0, **kw):
        return Offered(self, pos, card('EAST') if orientation is None else orientation, randflags)


class Offered(Room):
    def __init__(self, kind, pos, orientation, flags):
        self.kind = kind
        self.orientation = orientation
        self.flags = flags
        if not kind.E.sym: self.at = xyz(pos)
        f = self.fun('shift')
        self.pos = pos + CoarseVector(*f(self.key(0)))

    def get_transition_probs(self): return {'kind0': 1.0}

    def key(self, j):
        E = self.kind.E
        if E.sym:
            from pyvc import core
            return [self.kind.t, core.num(self.orientation.x).z(), core.num(self.orientation.y).z(), core.num(self.flags).z(), j]
        return (self.kind.t, int(self.orientation.x), int(self.orientation.y), self.flags, j)

    def fun(self, what, lo=-M, hi=M):
        E = self.kind.E
        if E.sym:
            import z3
            from pyvc import core
            I = z3.IntSort()
            def f(k):
                k = [z3.IntVal(x) if isinstance(x, int) else x for x in k]
                out = []
                for a in 'xyz':
                    e = z3.Function('%s_%s' % (what, a), *[I] * 6)(*k)
                    core.ENG.fact(z3.And(e >= lo, e <= hi), e)
                    out.append(core.ENG.atom(e, (lo, hi), False))
                return out
            return f
        return lambda k: self.kind.table(what, k)

    def _get_doorways(self):
        E = self.kind.E
        off, dirs = self.fun('door'), self.fun('facing', -1, 1)
        if not E.sym:
            n = self.kind.table('doors', self.key(0))[0] % 4
            return [{'orientation': CoarseVector(*dirs(self.key(j))), 'offset': CoarseVector(*off(self.key(j)))} for j in range(n)]
        import z3
        from pyvc import rt, core
        n = z3.Function('doors', *[z3.IntSort()] * 6)(*[z3.IntVal(x) if isinstance(x, int) else x for x in self.key(0)])
        core.ENG.fact(z3.And(n >= 0, n <= M), n)
        b = rt.newbinders(1)[0]
        t = rt.TList()
        t.segs = [rt.Seg(None, [b], z3.And(b >= 0, b < n), {'orientation': CoarseVector(*dirs(self.key(b))), 'offset': CoarseVector(*off(self.key(b)))}, 0, core.ENG.atom(n, (0, M), False))]
        return t

    def _get_positions(self):
        E = self.kind.E
        off = self.fun('tile')
        if not E.sym: return [CoarseVector(*off(self.key(('t', j)))) for j in range(self.kind.table('tiles', self.key(0))[0] % 4 + 1)]
        import z3
        from pyvc import rt, core
        n = z3.Function('tiles', *[z3.IntSort()] * 6)(*[z3.IntVal(x) if isinstance(x, int) else x for x in self.key(0)])
        core.ENG.fact(z3.And(n >= 0, n <= M), n)
        b = rt.newbinders(1)[0]
        t = rt.TList()
        t.segs = [rt.Seg(None, [b], z3.And(b >= 0, b < n), CoarseVector(*off(self.key(b))), 0, core.ENG.atom(n, (0, M), False))]
        return t


def kinds(E, plain=False):
    if not E.sym:
        memo = {}
        def table(what, k):
            if (what, k) not in memo:
                r = E.rng
                memo[what, k] = (xyz(card(r.choice(NAMES))) if what == 'facing' else (r.randint(0, 3),) if what in ('doors', 'tiles') else tuple(r.randint(-3, 3) for _ in 'xyz'))
            return memo[what, k]
        return [Kind(E, i, table) for i in range(E.int('kinds', 0, 4))]
    import z3
    from pyvc import rt, core
    n = E.int('kinds', 0, M)
    b = rt.newbinders(1)[0]
    kf = z3.Function('kind', z3.IntSort(), z3.IntSort())
    t = rt.TList()
    t.segs = [rt.Seg(None, [b], z3.And(b >= 0, b < core.num(n).z()), Kind(E, kf(b), plain=plain), 0, n)]
    return t


def exists(E, seq, pred):
    if not E.sym: return any(pred(x) for x in seq)
    import z3
    from pyvc import rt, core
    out = [z3.BoolVal(False)]
    for s in rt.TList(seq).get_segs():
        if s.items is not None: out += [core.bz(pred(x)) for x in s.items]
        else: out.append(core.exists(s.binders, z3.And(s.guard, core.bz(pred(s.elem)))))
    return core.SymBool.mk(z3.Or(out))


def localize(E, plain=False):
    import z3
    from pyvc import core
    u = UnusedPositionManager(256)
    opts = kinds(E, plain)
    E.patch(u, 'random_room_stream', lambda connecting_room, room_options: opts, must=True)      # contract: C14
    fits_ = lambda room: core.SymBool.mk(z3.Function('feasible', *[z3.IntSort()] * 8 + [z3.BoolSort()])(*room.key(0), *[core.num(c).z() for c in xyz(room.pos)]))
    E.patch(u, 'preregister_room', fits_, must=True)                             # contract: C11
    prev = object()
    here = CoarseVector(*[E.int('door.' + a, 0, T - 1) for a in 'xyz'])
    d = E.choice('facing', NAMES)
    got = E.collect(u.room_localization(opts, here, prev, card(d)))
    back = turn(xyz(card(d)), 2)
    behind = tuple(a - b for a, b in zip(xyz(here), xyz(card(d))))
    return u, opts, got, here, d, back, behind, fits_


@CONTRACTS('offered rooms', functions=[UP + 'room_localization'] + ROOMFN, cover=['offered'], opts={'abstract_sample': True, 'branch_timeout': 100})
def c_localize(E):
    if not E.sym: return concrete_localize(E)
    u, opts, got, here, d, back, behind, fits_ = localize(E)
    def offered(r):
        E.cover('offered')
        E.check('an offered room passed the feasibility test', fits_(r))
        E.check('an offered room has a door back to the previous room', exists(E, r.get_doorways(), lambda q: E.And(eq3(E, q['orientation'], back), eq3(E, q['offset'], behind))))
    E.all_elements(got, offered)


def found(E, seq, pred, guess):
    """some element of seq, with a guess of its place (which only helps the solver)"""
    import z3
    from pyvc import core, rt
    out = []
    for s in rt.TList(seq).get_segs():
        if s.items is None: out += [z3.And(s.guard_at(t), core.bz(pred(s.at(t)))) for t in guess if len(t) == len(s.binders)]
    return E.Or(*[core.SymBool.mk(x) for x in out], exists(E, seq, pred)) if guess else exists(E, seq, pred)


@CONTRACTS('nothing that fits is left out', functions=[UP + 'room_localization'] + ROOMFN, cover=['fits'], opts={'abstract_sample': 'complete', 'branch_timeout': 100})
def c_complete(E):
    if not E.sym: return concrete_localize(E)
    import z3
    from pyvc import core, rt
    u, opts, got, here, d, back, behind, fits_ = localize(E, True)
    i, j = E.int('i', 0, M), E.int('j', 0, M)
    E.assume(i < E.length(opts))
    k, c = opts[i], card(E.choice('orientation', NAMES))
    D = k(pos=CoarseVector(2, 2, 3), orientation=c).get_doorways()
    E.assume(j < E.length(D))
    q = D[j]
    E.assume(eq3(E, q['orientation'], back))
    r = k(pos=CoarseVector(2, 2, 3) - (q['offset'] - here + card(d)), orientation=c)
    E.assume(fits_(r))
    E.cover('fits')
    same = lambda e: E.And(*[core.SymBool.mk((z3.IntVal(a) if isinstance(a, int) else a) == b) for a, b in zip(e.key(0), r.key(0))], eq3(E, e.pos, xyz(r.pos)))
    I, J = core.num(i).z(), core.num(j).z()
    E.check('a room type is offered with every door that fits', found(E, got, same, [[I, z3.IntVal(o), J] for o in range(4)]))


def no_cap_fits(E, g, opts, here, d, back):
    i = E.int('i', 0, M)
    E.assume(i < E.length(opts))
    E.shuffled(i)
    k, c = opts[i], card(E.choice('orientation', NAMES))
    D = k(pos=CoarseVector(2, 2, 3), orientation=c).get_doorways()
    E.assume(E.length(D) == 1)                      # end caps have one door
    q = D[0]
    E.assume(eq3(E, q['orientation'], back))
    r = k(pos=CoarseVector(2, 2, 3) - (q['offset'] - here + card(d)), orientation=c)
    E.check('a door is left open only if no cap fits', some(E, [r.get_positions()], lambda p: E.Or(E.Not(legal(E, xyz(p))), g.taken0(xyz(p)))))


def concrete_localize(E):
    m = E.choice('mirror', [1, 2, 4])
    g = Manager(E, mirror=m, rooms=3)
    u = g.u
    E.patch_random()
    ks = kinds(E)
    if not ks:
        from pyvc.hapi import Skip
        raise Skip()
    if u.unoccupied and E.bool('an open door'): (here, prev, ori) = E.rng.choice(u.unoccupied)
    else: here, prev, ori = CoarseVector(*[E.int('door.' + a, 0, T - 1) for a in 'xyz']), ks[0](CoarseVector(0, 0, 0)), card(E.choice('facing', NAMES))
    back = turn(xyz(ori), 2)
    behind = tuple(a - b for a, b in zip(xyz(here), xyz(ori)))
    rooms, doors, occ = list(u.rooms), list(u.unoccupied), dict(u.occupied)
    want = [(k, c) for k in ks if k.t % 3 == 0 for c in CARDINALS]          # without options
    want = [(k, c, xyz(here + CoarseVector(2, 2, 3) - q['offset'] - CoarseVector(*xyz(ori)))) for k, c in want for q in k(pos=CoarseVector(2, 2, 3), orientation=c).get_doorways() if xyz(q['orientation']) == back]
    want = [x for x in want if feasible(E, u, x[0](pos=CoarseVector(*x[2]), orientation=x[1]), m)]
    if want: E.cover('fits')
    got = []
    for r in u.room_localization(ks, here, prev, ori):
        E.cover('offered')
        got.append((id(r.kind), xyz(r.orientation), tuple(r.at)))
        E.check('an offered room has a door back to the previous room', any(xyz(q['orientation']) == back and xyz(q['offset']) == behind for q in r.get_doorways()))
        for k in range(m):
            c = copy.copy(r)
            c.pos, c.orientation = CoarseVector(*about(xyz(r.pos), k * 4 // m)), CoarseVector(*turn(xyz(r.orientation), k * 4 // m))
            for p in c.get_positions(): E.check('an offered room passed the feasibility test', legal(E, xyz(p)) and p not in occ)
            for q in c.get_doorways(): E.check('an offered room passed the feasibility test', legal(E, xyz(q['offset'])))
        E.check('offering rooms changes nothing', u.rooms == rooms and u.unoccupied == doors and u.occupied == occ)
    E.check('a room type is offered with every door that fits', all((id(k), xyz(c), at) in got for k, c, at in want))


def feasible(E, u, r, m):
    tiles, doors = [], []
    for n in range(m):
        c = copy.copy(r)
        c.pos, c.orientation = CoarseVector(*about(xyz(r.pos), n * 4 // m)), CoarseVector(*turn(xyz(r.orientation), n * 4 // m))
        tiles.append({xyz(p) for p in c.get_positions()})
        doors += [xyz(q['offset']) for q in c.get_doorways()]
    every = [t for ts in tiles for t in ts]
    return len(set(every)) == len(every) and all(legal(E, t) and CoarseVector(*t) not in u.occupied for t in every) and all(legal(E, t) for t in doors)


def cap_contract(d):
    @CONTRACTS('end caps for a door facing ' + d, functions=[UP + '_room_cap_real', UP + 'is_legal'] + ROOMFN, cover=['cap', 'none'], opts={'abstract_sample': True, 'generic_list': 4, 'normal_cases': True, 'branch_timeout': 100})
    def f(E): c_cap(E, d)


for d_ in NAMES: cap_contract(d_)


def c_cap(E, d):
    g = Manager(E)
    u = g.u
    if not E.sym and not takes(u, '_room_cap_real', 4): return concrete_endcap(E, g, u)
    E.patch_random()
    opts = kinds(E)
    here = CoarseVector(*[E.int('door.' + a, 0, T - 1) for a in 'xyz'])
    r = u._room_cap_real(here, object(), card(d), opts)
    back = turn(xyz(card(d)), 2)
    behind = tuple(a - b for a, b in zip(xyz(here), xyz(card(d))))
    if r is None:
        E.cover('none')
        if E.sym: no_cap_fits(E, g, opts, here, d, back)
        else: E.check('a door is left open only if no cap fits', not any(True for _ in fitting(E, u, opts, here, card(d))))
        return
    E.cover('cap')
    E.check('the cap has a door back to the room', exists(E, r.get_doorways(), lambda q: E.And(eq3(E, q['orientation'], back), eq3(E, q['offset'], behind))))
    def tile(p):
        E.check('the cap stays inside the map', legal(E, xyz(p)))
        E.check('the tiles of the cap are free', E.Not(g.taken0(xyz(p))))
    E.all_elements(r.get_positions(), tile)
    q = some_tile(E, 'q')
    E.check('looking for a cap changes nothing', E.And(g.rooms_are(), g.unchanged_doors(), g.same_at(q)))
