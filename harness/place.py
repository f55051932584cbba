"""the placement loop with its callees replaced by their contracts"""
from hupm import *


class Ghost:
    copies = links = calls = 0


class Stream:
    """an arbitrary finite stream of offered rooms (its length is decided while it is read)"""
    def __init__(self, E, g): self.E = E; self.g = g
    def __iter__(self):
        for i in range(3):
            if not self.E.bool('another room'): return
            from pyvc import core
            r = core.Opaque(core.ENG.fresh_int('offered', 0, M).z(), 'room')
            yield r
        from pyvc import core
        raise core.Unsupported('a long stretch of the offered rooms is read')


def place(E):
    """runs place_rooms; returns the ghost record"""
    from pyvc import core, rt
    m = E.choice('mirror', [1, 2, 4])
    want = E.int('rooms wanted', 0, M)
    g = Manager(E, mirror=m)
    u = g.u
    G = Ghost()
    def fresh_state():
        n = E.int('doors now', 0, M)
        E.nstate = getattr(E, 'nstate', 0) + 1
        k = E.nstate
        import z3
        I = z3.IntSort()
        X = [z3.Function('door%d_%s' % (k, a), I, I) for a in 'xyz']
        D = [z3.Function('doordir%d_%s' % (k, a), I, I) for a in 'xyz']
        R = z3.Function('doorroom%d' % k, I, I)
        def el(d): return (CoarseVector(*[core.ENG.atom(f(d), (0, T - 1), False) for f in X]), core.Opaque(R(d), 'room'), CoarseVector(*[core.ENG.atom(f(d), (-1, 1), False) for f in D]))
        j = z3.Int('jq')
        for f in X: core.ENG.define(z3.ForAll([j], z3.And(f(j) >= 0, f(j) <= T - 1), patterns=[f(j)]))
        for f in D: core.ENG.define(z3.ForAll([j], z3.And(f(j) >= -1, f(j) <= 1), patterns=[f(j)]))
        b = rt.newbinders(1)[0]
        u.unoccupied = rt.TList()
        u.unoccupied.segs = [rt.Seg(None, [b], z3.And(b >= 0, b < core.num(n).z()), el(b), 0, n)]
        u.rooms = rt.TList()
        u.rooms.segs = [rt.Seg(None, [b], z3.And(b >= 0, b < core.num(E.int('rooms now', 0, M)).z()), core.Opaque(z3.Function('rooms%d' % k, I, I)(b), 'room'), 0, n)]
        u.occupied = rt.TDict()
        u.occupied.make_sym()
        u.occupied.kind = 'CoarseVector'
        P, V = z3.Function('occ%d' % k, I, I, I, z3.BoolSort()), z3.Function('occv%d' % k, I, I, I, I)
        u.occupied.base = lambda q: (P(*q), [V(*q)])
        return n, el
    def first(): E.check('nothing is placed before the first step', G.calls == 0)
    def havoc():
        G.calls = E.int('registrations so far', 0, M)
        G.copies = G.calls * m
        G.links = G.calls * m
        E.assume(E.Or(G.copies == 0, G.copies - m < want))
        G.n, G.el = fresh_state()
        G.start = G.calls
        G.door = None
        G.un = u.unoccupied
    def again():
        E.check('each registration is linked', G.links == G.copies)
        E.check('rooms are only placed while fewer than requested', E.Or(G.copies == 0, G.copies - m < want))
        if G.calls is G.start:
            E.cover('door removed')
            E.check('a step without a registration has tried a door', G.door is not None)
            E.check('a door for which no room is offered is removed', E.Not(contains_door(E, u.unoccupied, G.door)))
            def was(d): E.check('no door is added by a step that places nothing', contains_door(E, G.un, d))
            E.all_elements(u.unoccupied, was)
        else:
            E.cover('room placed')
            E.check('a step registers a room', G.start < G.calls)
    def pick(flavour):
        if not E.Not(E.length(u.unoccupied) == 0): raise Exception('No more space!')
        from pyvc import core
        i = E.int('chosen door', 0, M)
        E.assume(i < G.n)
        if u.unoccupied is not G.un: raise core.Unsupported('door chosen in a changed list')
        G.door = G.el(core.num(i).z())
        return G.door
    def localize(rooms, door, prev, ori):
        E.check('rooms are offered for the chosen door', G.door is not None and door is G.door[0] and prev is G.door[1] and ori is G.door[2])
        return Stream(E, G)
    def register(r):
        G.calls = G.calls + 1
        G.copies = G.copies + m
        G.last = r
        G.n, G.el = fresh_state()
    def link(a, b):
        E.check('the link joins the previous room and the new one', G.door is not None and a is G.door[1] and b is G.last)
        G.links = G.links + m
    E.patch(u, 'nonrandom_position', pick, must=True)       # contract: C14
    E.patch(u, 'room_localization', localize, must=True)    # contract: C13
    E.patch(u, 'register_room', register, must=True)        # contract: C11, C12
    E.patch(u, 'register_link', link, must=True)            # contract: C12
    core.ENG.opts['while_handler'] = rt.WhileCut(first, havoc, again, lambda: [lambda v: v + G.copies, lambda v: v + G.calls, lambda v: v - G.copies, lambda v: v - G.calls, lambda v: v],
                                                 changes=[(u, a) for a in ('unoccupied', 'rooms', 'occupied')])
    kinds = object()
    u.place_rooms(False, kinds, rooms=want)
    core.ENG.opts['while_handler'] = None
    return G, m, want


def contains_door(E, seq, d):
    if not E.sym: return d in list(seq)
    from pyvc import rt
    return rt.contains(seq, d)


def concrete_place(E, step=None):
    """the real placement loop on room classes with arbitrary doors"""
    from C13 import kinds
    m = E.choice('mirror', [1, 2, 4])
    want = E.int('rooms wanted', 0, 12)
    g = Manager(E, mirror=m, rooms=2)
    u = g.u
    E.patch_random()
    ks = kinds(E)
    if not ks:
        from pyvc.hapi import Skip
        raise Skip()
    before = len(u.rooms)
    un = []
    pick = getattr(u, 'nonrandom_position', None)
    def watched(*f):
        now = (len(u.rooms), len(u.unoccupied), list(u.unoccupied))
        if un:
            prev = un[-1]
            E.check('a step places a room or removes an open door', now[0] > prev[0] or now[1] < prev[1] and all(d in prev[2] for d in now[2]))
        un.append(now)
        E.check('the loop ends', len(un) < 5000)
        return pick(*f)
    if pick is not None: E.patch(u, 'nonrandom_position', watched)
    links = len(u.links)
    u.place_rooms(False, ks, rooms=want)
    n = len(u.rooms) - before
    E.check('at most the requested number of rooms, rounded up to the mirror factor', n == 0 or n - m < want)
    E.check('whole sets of copies', n % m == 0)
    E.check('one link per copy', len(u.links) - links == n)
