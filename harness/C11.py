from pyvc.hapi import Registry
from hupm import *
CONTRACTS = Registry()
ROOMFN_ = ROOMFN


@CONTRACTS('registering a room', functions=[UP + 'register_room', UP + '_register_room', UP + '_yield_mirrored', UP + 'is_legal'] + ROOMFN, cover=['ok', 'refused', 'claimed', 'open', 'kept'])
def c_register(E):
    g = Manager(E)
    u = g.u
    r, _ = room(E, 'new')
    ex = E.raises(lambda: u.register_room(r), Exception)
    if ex is None: r = g.new_rooms()[0]
    P, D = r.get_positions(), r.get_doorways()
    q = some_tile(E, 'q', P)
    if ex is not None:
        E.check('a refused room changes nothing', E.And(g.rooms_are(), g.unchanged_doors(), g.same_at(q)))
        if E.sym:
            from pyvc import core
            E.check('refused only because of a conflict', conflict(E, g, P))
        else: E.check('refused only because of a conflict', any(g.taken0(xyz(p)) for p in P))
        E.cover('refused')
        return
    E.cover('ok')
    part = E.choice('part', ['tiles', 'listed doors', 'kept doors', 'new doors'])
    if part == 'tiles':
        E.check('the room is entered last', g.rooms_are(r))
        if contains_tile(E, P, q):
            E.check('claimed tiles were free', E.Not(g.taken0(q)))
            E.check('claimed tiles belong to the room', g.owner_is(q, r)); E.cover('claimed')
        else: E.check('every other tile keeps its owner', g.same_at(q))
    if part == 'listed doors':
        def door(d):
            pos, owner, ori = d
            E.check('open doors are inside the map', legal(E, xyz(pos)))
            E.check('open doors are not occupied', E.Not(g.taken(xyz(pos))))
            E.check('open doors belong to a registered room', True if owner is r else g.registered0(owner))
            E.cover('open')
        E.all_elements(u.unoccupied, door)
    if part == 'kept doors':
        d = g.old_door()
        if not contains_tile(E, P, xyz(d[0])):
            E.check('other open doors stay open', E.contains(u.unoccupied, d)); E.cover('kept')
    if part == 'new doors':
        i = E.int('i', 0, M)
        if i < E.length(D):
            d = D[i]
            t = xyz(d['offset'])
            if E.And(legal(E, t), E.Not(g.taken(t))):
                E.check('the usable doors of the room are opened', E.contains(u.unoccupied, (d['offset'], r, d['orientation'])))


def conflict(E, g, P):
    import z3
    from pyvc import core
    out = []
    for s in P.get_segs():
        if s.items is not None: out += [g.taken0(xyz(x)) for x in s.items]
        else: out.append(core.SymBool.mk(core.exists(s.binders, z3.And(s.guard, core.bz(g.taken0(xyz(s.elem)))))))
    return E.Or(*out)


@CONTRACTS('feasibility test', functions=[UP + 'preregister_room', UP + '_preregister_room', UP + '_yield_mirrored', UP + 'is_legal'] + ROOMFN, cover=['yes', 'no'], opts={'budget': 400})
def c_pre(E):
    m = E.choice('mirror', [1, 2, 4])
    g = Manager(E, mirror=m, rooms=3)
    u = g.u
    r, _ = room(E, 'new')
    ok = u.preregister_room(r)
    q = some_tile(E, 'q')
    E.check('the test changes nothing', E.And(g.rooms_are(), g.unchanged_doors(), g.same_at(q)))
    P, D = r.get_positions(), r.get_doorways()
    if ok:
        E.cover('yes')
        k = E.choice('copy', list(range(m)))
        turns = k * 4 // m
        part = E.choice('part', ['tiles', 'doors'])
        i = E.int('i', 0, M); j = E.int('j', 0, M)
        if part == 'tiles':
            if i < E.length(P):
                t = about(xyz(P[i]), turns)
                E.check('all tiles of every copy are free', E.Not(g.taken0(t)))
                E.check('all tiles of every copy are inside the map', legal(E, t))
                if k < m - 1:
                    l = E.choice('other', list(range(k + 1, m)))
                    if j < E.length(P):
                        E.check('the copies do not overlap', E.Not(E.And(*[a == b for a, b in zip(t, about(xyz(P[j]), l * 4 // m))])))
        elif i < E.length(D):
            E.check('all doors of every copy are inside the map', legal(E, about(xyz(D[i]['offset']), turns)))
    else: E.cover('no')


@CONTRACTS('a refused room does not fit', functions=[UP + 'preregister_room', UP + '_preregister_room', UP + '_yield_mirrored', UP + 'is_legal'] + ROOMFN, cover=['no'], opts={'budget': 400})
def c_no(E):
    m = E.choice('mirror', [1, 2, 4])
    g = Manager(E, mirror=m, rooms=3)
    r, _ = room(E, 'new')
    if g.u.preregister_room(r): return
    E.cover('no')
    P, D = r.get_positions(), r.get_doorways()
    turns = [k * 4 // m for k in range(m)]
    bad = lambda t: E.Or(E.Not(legal(E, t)), g.taken0(t))
    why = [some(E, [P], lambda p: bad(about(xyz(p), n))) for n in turns]
    why += [some(E, [D], lambda q: E.Not(legal(E, about(xyz(q['offset']), n)))) for n in turns]
    why += [some(E, [P, P], lambda p, q: E.And(*[a == b for a, b in zip(about(xyz(p), n), about(xyz(q), l))])) for n in turns for l in turns if n < l]
    E.check('only what does not fit is refused', E.Or(*why))


@CONTRACTS('registering a room and its copies', functions=[UP + 'register_room', UP + '_register_room', UP + '_yield_mirrored', UP + 'is_legal'] + ROOMFN, cover=['all', 'some', 'claimed', 'kept', 'open'], opts={'budget': 400})
def c_copies(E):
    m = E.choice('mirror', [1, 2, 4])
    g = Manager(E, mirror=m, rooms=3)
    u = g.u
    r, _ = room(E, 'new')
    ex = E.raises(lambda: u.register_room(r), Exception)
    new = g.new_rooms()
    E.check('copies are entered until one is refused', len(new) == m if ex is None else len(new) < m)
    E.cover('all' if ex is None else 'some')
    part = E.choice('part', ['tiles', 'doors'])
    if part == 'tiles':
        q = some_tile(E, 'q', [p for c in new for p in c.get_positions()] if not E.sym else ())
        owners = [c for c in new if contains_tile(E, c.get_positions(), q)]
        E.check('no two registered rooms share a tile', len(owners) <= 1)
        if owners:
            E.cover('claimed')
            E.check('claimed tiles were free', E.Not(g.taken0(q)))
            E.check('claimed tiles belong to the room', g.owner_is(q, owners[0]))
        else: E.cover('kept'); E.check('every other tile keeps its owner', g.same_at(q))
    else:
        def door(d):
            E.cover('open')
            pos, owner, ori = d
            E.check('open doors are inside the map', legal(E, xyz(pos)))
            E.check('open doors are not occupied', E.Not(g.taken(xyz(pos))))
            E.check('open doors belong to a registered room', True if any(owner is c for c in new) else g.registered0(owner))
        E.all_elements(u.unoccupied, door)


@CONTRACTS('a feasible room is accepted', functions=[UP + 'preregister_room', UP + '_preregister_room', UP + 'register_room', UP + '_register_room', UP + '_yield_mirrored'] + ROOMFN, cover=['ok'], opts={'budget': 400})
def c_accept(E):
    m = E.choice('mirror', [1, 2, 4])
    g = Manager(E, mirror=m, rooms=3)
    u = g.u
    r, _ = room(E, 'new')
    if not u.preregister_room(r): return
    ex = E.raises(lambda: u.register_room(r), Exception)
    E.check('a feasible room is never refused', ex is None)
    E.cover('ok')
    E.check('all copies are registered', len(g.new_rooms()) == m)


@CONTRACTS('a feasible room is never refused', functions=[UP + 'preregister_room', UP + 'register_room', UP + '_register_room', UP + '_yield_mirrored'], cover=['ok'], sym=False, note='bounded cross-check of whole histories: the two contracts above imply it')
def c_history(E):
    m = E.choice('mirror', [1, 2, 4])
    u = UnusedPositionManager(256, mirror=m)
    for i in range(E.int('steps', 1, 8)):
        r, _ = room(E, 'r%d' % i)
        pre = u.preregister_room(r)
        n, rooms = len(u.rooms), list(u.rooms)
        distinct = E.distinct([xyz(p) for p in r.get_positions()])
        ex = E.raises(lambda: u.register_room(r), Exception)
        if pre:
            E.check('a feasible room is accepted', ex is None); E.cover('ok')
            E.check('all copies are registered', len(u.rooms) == n + m)
        owner = {}
        for x in u.rooms:
            for p in x.get_positions():
                E.check('no two registered rooms share a tile', owner.setdefault(xyz(p), x) is x)
        E.check('the occupied tiles are those of the registered rooms', {xyz(p): x for p, x in u.occupied.items()} == owner)
        for (pos, x, o) in u.unoccupied:
            E.check('open doors are legal, free and owned', legal(E, xyz(pos)) and pos not in u.occupied and any(x is y for y in u.rooms))
