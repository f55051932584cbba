from pyvc.hapi import Registry
from hlib import *
from hroom import *
import hupm
from redeclipse.upm import UnusedPositionManager
CONTRACTS = Registry()
UP = 'redeclipse.upm.UnusedPositionManager.'
FNS = [UP + '_yield_mirrored', UP + '_yield_mirrored_positions', UP + '__init__', 'redeclipse.vector.BaseVector.offset_rotate'] + ROOMFN


def snapshot(r): return (xyz(r.pos), xyz(r.orientation), r.pos, r.orientation, r.tiles, r.doors)


@CONTRACTS('mirrored copies', functions=FNS, cover=['tile', 'door', 'done'])
def c_copies(E):
    m = E.choice('mirror', [1, 2, 4])
    g = hupm.Manager(E, mirror=m, noclip=True, rooms=2)
    u = g.u
    r, d = room(E)
    before = snapshot(r)
    P, D = r.get_positions(), r.get_doorways()
    i = E.int('i', 0, M); j = E.int('j', 0, M)
    nt, nd = E.length(P), E.length(D)
    u.register_room(r)
    copies = g.new_rooms()
    E.check('as many copies as the mirror factor', len(copies) == m)
    E.check('every copy is an object of its own', len({id(c) for c in copies} | {id(r)}) == m + 1)
    for k in [E.choice('k', list(range(m)))]:
        c, q = copies[k], k * 4 // m
        E.check('a copy is the room turned about the map centre', E.And(eq3(E, c.pos, about(xyz(r.pos), q)), eq3(E, c.orientation, turn(xyz(r.orientation), q)), type(c) is type(r), type(c.pos) is CoarseVector))
        Pk, Dk = c.get_positions(), c.get_doorways()
        E.check('a copy claims as many tiles and doors', E.And(E.length(Pk) == nt, E.length(Dk) == nd))
        part = E.choice('part', ['tiles', 'doors'])
        if part == 'tiles' and i < nt:
            E.check('tiles of a copy are the turned tiles', eq3(E, Pk[i], about(xyz(P[i]), q))); E.cover('tile')
        if part == 'doors' and j < nd:
            a, b = Dk[j], D[j]
            E.check('door tiles of a copy are the turned ones', eq3(E, a['offset'], about(xyz(b['offset']), q)))
            E.check('door directions of a copy are the turned ones', eq3(E, a['orientation'], turn(xyz(b['orientation']), q))); E.cover('door')
    now = snapshot(r)
    E.check('the original room is not modified', E.And(*[a == b for a, b in zip(now[0] + now[1], before[0] + before[1])], now[4] is before[4], now[5] is before[5]))
    E.cover('done')


@CONTRACTS('every copy is registered', functions=[UP + 'register_room', UP + '_register_room', UP + '_yield_mirrored'] + ROOMFN, cover=['done'])
def c_reg(E):
    m = E.choice('mirror', [1, 2, 4])
    g = hupm.Manager(E, mirror=m, noclip=True)
    u = g.u
    r, d = room(E)
    u.register_room(r)
    got = g.new_rooms()
    E.check('each copy is registered once', len(got) == m)
    E.check('every copy is an object of its own', len({id(c) for c in got} | {id(r)}) == m + 1)
    for k in range(m):
        q = k * 4 // m
        E.check('copies in order', E.And(eq3(E, got[k].pos, about(xyz(r.pos), q)), eq3(E, got[k].orientation, turn(xyz(r.orientation), q))))
    E.cover('done')


@CONTRACTS('links', functions=[UP + 'register_link', UP + '_yield_mirrored_positions'], cover=['done'])
def c_links(E):
    m = E.choice('mirror', [1, 2, 4])
    u = UnusedPositionManager(256, mirror=m)
    a, _ = room(E, 'a'); b, _ = room(E, 'b')
    old = [('x', 'y')] if E.bool('earlier') else []
    u.links = list(old) if not E.sym else E.collect(old)
    u.register_link(a, b)
    E.check('one link per copy', len(u.links) == len(old) + m)
    E.check('earlier links stay', list(u.links[:len(old)]) == old)
    for k in range(m):
        q = k * 4 // m
        l = u.links[len(old) + k]
        E.check('a link joins the copies under the same turn', E.And(len(l) == 2, eq3(E, l[0], about(xyz(a.pos), q)), eq3(E, l[1], about(xyz(b.pos), q))))
    E.cover('done')
