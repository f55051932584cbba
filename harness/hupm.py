"""an arbitrary position manager state (symbolic in the verifier; built by registrations in the bounded search)"""
from hlib import *
from hroom import *
from redeclipse.upm import UnusedPositionManager
UP = 'redeclipse.upm.UnusedPositionManager.'
T = 32          # the map has the tiles 0..31 on each axis


def legal(E, t): return E.And(*[E.And(0 <= c, c < T) for c in t])


class Manager:
    """u: the manager; occupied0(t) -> owner present / identity; the invariant of C11 holds of it"""
    def __init__(self, E, mirror=1, noclip=False, rooms=6):
        self.E = E
        u = self.u = UnusedPositionManager(256, mirror=mirror, noclip=noclip)
        if E.sym:
            import z3
            from pyvc import rt, core
            self.z3, self.rt, self.core = z3, rt, core
            I, B = z3.IntSort(), z3.BoolSort()
            P0, V0 = self.P0, self.V0 = z3.Function('occ_has', I, I, I, B), z3.Function('occ_val', I, I, I, I)
            u.occupied.make_sym()
            u.occupied.kind = 'CoarseVector'
            u.occupied.base = lambda k: (P0(*k), [V0(*k)])
            # rooms already registered: arbitrary objects
            nr = E.int('rooms', 0, M)
            b = rt.newbinders(1)[0]
            R = z3.Function('room_id', I, I)
            u.rooms.segs = [rt.Seg(None, [b], z3.And(b >= 0, b < core.num(nr).z()), core.Opaque(R(b), 'room'), 0, nr)]
            self.reg = z3.Function('registered', I, B)
            # open doors: legal, free, of a registered room
            X = [z3.Function('open_' + a, I, I) for a in 'xyz']
            D = [z3.Function('open_dir_' + a, I, I) for a in 'xyz']
            O_ = z3.Function('open_room', I, I)
            j = z3.Int('jq')
            nd = E.int('open doors', 0, M)
            rng = z3.And(j >= 0, j < core.num(nd).z())
            for g in X: core.ENG.define(z3.ForAll([j], z3.And(g(j) >= 0, g(j) <= T - 1), patterns=[g(j)]))
            for g in D: core.ENG.define(z3.ForAll([j], z3.And(g(j) >= -1, g(j) <= 1), patterns=[g(j)]))
            core.ENG.define(z3.ForAll([j], z3.Implies(rng, z3.And(z3.Not(P0(*[2 * g(j) for g in X])), self.reg(O_(j)))), patterns=[X[0](j), X[1](j), X[2](j)]))
            self.open0 = (X, O_, D, nd)
            d = rt.newbinders(1)[0]
            el = (CoarseVector(*[core.ENG.atom(g(d), (0, T - 1), False) for g in X]), core.Opaque(O_(d), 'room'), CoarseVector(*[core.ENG.atom(g(d), (-1, 1), False) for g in D]))
            u.unoccupied.segs = [rt.Seg(None, [d], z3.And(d >= 0, d < core.num(nd).z()), el, 0, nd)]
        else:
            for i in range(E.int('rooms', 0, rooms)):
                r = room(E, 'r%d' % i)[0]
                try: u.register_room(r)
                except Exception: pass
            self.before()

    def before(self):
        u = self.u
        self.occ0, self.un0, self.rooms0 = dict(u.occupied), list(u.unoccupied), list(u.rooms)

    # queries
    def k(self, t): return [self.core.num(c).z(2) for c in t]
    def taken0(self, t):
        if self.E.sym: return self.core.SymBool.mk(self.P0(*self.k(t)))
        return CoarseVector(*t) in self.occ0
    def taken(self, t):
        if self.E.sym: return self.core.SymBool.mk(self.u.occupied.lookup(('CoarseVector', self.k(t)))[0])
        return CoarseVector(*t) in self.u.occupied
    def owner_is(self, t, r):
        if self.E.sym:
            P, V = self.u.occupied.lookup(('CoarseVector', self.k(t)))
            return self.core.SymBool.mk(self.z3.And(P, V[0] == self.core.ENG.intern_id(r)))
        return self.u.occupied.get(CoarseVector(*t)) is r
    def same_at(self, t):
        if self.E.sym:
            P, V = self.u.occupied.lookup(('CoarseVector', self.k(t)))
            k = self.k(t)
            return self.core.SymBool.mk(self.z3.And(P == self.P0(*k), self.z3.Implies(P, V[0] == self.V0(*k))))
        return self.u.occupied.get(CoarseVector(*t)) is self.occ0.get(CoarseVector(*t))
    def registered0(self, r):
        if self.E.sym:
            if not isinstance(r, self.core.Opaque): return False
            return self.core.SymBool.mk(self.reg(r._term))
        return any(x is r for x in self.rooms0)
    def new_rooms(self):
        """the rooms entered after those of the state before, which must still be there"""
        u = self.u
        if self.E.sym:
            segs = [s for s in u.rooms.segs if s.items is None or s.items]
            if not (segs and segs[0].items is None and not segs[0].elem.__dict__.get('x') and str(segs[0].elem._term.decl()) == 'room_id' and segs[0].lo == 0): raise self.core.Unsupported('shape of the room list')
            if any(s.items is None for s in segs[1:]): raise self.core.Unsupported('shape of the room list')
            return [x for s in segs[1:] for x in s.items]
        n = len(self.rooms0)
        self.E.check('earlier rooms stay', len(u.rooms) >= n and all(a is b for a, b in zip(u.rooms, self.rooms0)))
        return list(u.rooms)[n:]
    def rooms_are(self, *new):
        """rooms == rooms before + new"""
        u = self.u
        if self.E.sym:
            segs = [s for s in u.rooms.segs if s.items is None or s.items]
            segs = segs[1:] if segs and segs[0].items is None and not segs[0].elem.__dict__.get('x') and str(segs[0].elem._term.decl()) == 'room_id' and segs[0].lo == 0 else None
            if segs is None or any(s.items is None for s in segs): raise self.core.Unsupported('shape of the room list')
            got = [x for s in segs for x in s.items]
            return len(got) == len(new) and all(a is b for a, b in zip(got, new))
        got = list(u.rooms)
        want = self.rooms0 + list(new)
        return len(got) == len(want) and all(a is b for a, b in zip(got, want))
    def unchanged_doors(self):
        u = self.u
        if self.E.sym:
            segs = [s for s in u.unoccupied.segs if s.items is None or s.items]
            return self.E.And(len(segs) == 1, segs[0].lo == 0, self.E.length(u.unoccupied) == self.open0[3])
        return list(u.unoccupied) == self.un0
    def old_door(self, name='j'):
        """an arbitrary open door of the state before"""
        if self.E.sym:
            X, O_, D, nd = self.open0
            j = self.E.int(name, 0, M)
            self.E.assume(j < nd)
            z = self.core.num(j).z()
            for e in [g(z) for g in X] + [O_(z)] + [g(z) for g in D]: self.core.ENG.define(e == e)
            A = self.core.ENG.atom
            return (CoarseVector(*[A(g(z), (0, T - 1), False) for g in X]), self.core.Opaque(O_(z), 'room'), CoarseVector(*[A(g(z), (-1, 1), False) for g in D]))
        if not self.un0:
            from pyvc.hapi import Skip
            raise Skip()
        return self.E.rng.choice(self.un0)


def some_tile(E, name, near=()):
    if E.sym: return tuple(E.int(name + '.' + a, -(1 << 14), 1 << 14) for a in 'xyz')
    near = list(near)
    if near and E.bool(name + '.on'): return xyz(E.rng.choice(near))
    return tuple(E.int(name + '.' + a, -5, 36) for a in 'xyz')


def contains_tile(E, seq, t):
    """t is one of the listed tiles"""
    return E.contains(seq, CoarseVector(*t))


def some(E, seqs, pred):
    """some elements of the sequences are related"""
    if not E.sym:
        import itertools
        return any(pred(*x) for x in itertools.product(*seqs))
    import z3
    from pyvc import rt, core
    import itertools
    out = []
    for segs in itertools.product(*[[s for s in rt.TList(x).get_segs() if s.items is None or s.items] for x in seqs]):
        bs, guards, els = [], [], []
        for s in segs:
            if s.items is not None: raise core.Unsupported('shape of the list')
            b = rt.newbinders(len(s.binders))
            for new, old in zip(b, s.binders): core.ENG.atom_bounds[new.get_id()] = core.ENG.atom_bounds.get(old.get_id(), (None, None)); core.ENG.atom_keep[new.get_id()] = new
            bs += b; guards.append(s.guard_at(b)); els.append(s.at(b))
        out.append(core.SymBool.mk(core.exists(bs, z3.And(*guards, core.bz(pred(*els))))))
    return E.Or(*out)
