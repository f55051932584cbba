from pyvc.hapi import Registry
from hlib import *
from redeclipse.lighting import LightManager, PositionBasedLightManager
from redeclipse import entities as EN
from redeclipse.entities import Entity, PlayerSpawn, Sunlight, Light, Pusher, TeamFlag
from redeclipse.entities.weapon import Weapon, Grenade, Shotgun
from redeclipse.entities.model import MapModel
from redeclipse.enums import EntType, WeaponType
CONTRACTS = Registry()
ORDER = {
    'ET_WEAPON': ['type', 'flags', 'modes', 'muts', 'id'],
    'ET_PLAYERSTART': ['team', 'yaw', 'pitch', 'modes', 'muts', 'id'],
    'ET_MAPMODEL': ['type', 'yaw', 'pitch', 'roll', 'blend', 'scale', 'flags', 'colour', 'palette', 'palindex', 'spinyaw', 'spinpitch', 'spinroll'],
    'ET_SUNLIGHT': ['yaw', 'pitch', 'red', 'green', 'blue', 'offset', 'flare', 'flarescale'],
    'ET_PUSHER': ['yaw', 'pitch', 'force', 'maxrad', 'minrad', 'type'],
    'ET_LIGHT': ['radius', 'red', 'green', 'blue', 'flare', 'flarescale'],
    'ET_AFFINITY': ['team', 'yaw', 'pitch', 'modes', 'muts', 'id'],
}
CODE = {'ET_LIGHT': 1, 'ET_MAPMODEL': 2, 'ET_PLAYERSTART': 3, 'ET_SUNLIGHT': 8, 'ET_WEAPON': 9, 'ET_PUSHER': 13, 'ET_AFFINITY': 14}
HELPERS = [(PlayerSpawn, 'ET_PLAYERSTART', {}), (Sunlight, 'ET_SUNLIGHT', {}), (Light, 'ET_LIGHT', {}), (Pusher, 'ET_PUSHER', {}), (TeamFlag, 'ET_AFFINITY', {}),
           (Weapon, 'ET_WEAPON', {}), (Grenade, 'ET_WEAPON', {'type': 9}), (Shotgun, 'ET_WEAPON', {'type': 3}), (MapModel, 'ET_MAPMODEL', {})]


class XMap:
    def __init__(self, ents): self.ents = ents


def position(E, name='p'):
    """(vector, its fine coordinates); fine vectors on the half grid, coarse vectors on whole and half tiles"""
    k = E.choice(name + '.kind', ['F', 'C'])
    v = vec(E, name, k, forms=('int', 'half'), lo=-(1 << 16), hi=1 << 16)
    s = 8 if k == 'C' else 1
    return v, tuple(c * s for c in xyz(v))


def is_colour(E, c):
    return E.And(type_int(E, c), c >= 0, c <= 255)


def type_int(E, c):
    if E.sym:
        from pyvc import core
        if isinstance(c, core.Num): return not c.f
        if isinstance(c, core.OpF): return False
    return isinstance(c, int) and not isinstance(c, bool)


def light_of(E, ents, old):
    E.check('exactly one entity is added', len(ents) == len(old) + 1 and all(a is b for a, b in zip(ents, old)))
    e = ents[-1]
    E.check('the entity is a light', e.type == EntType.ET_LIGHT and list(e.attr_annotations) == ORDER['ET_LIGHT'] and len(e.attrs) == 6)
    return e


def manager(E, cls, ws, br, sa):
    return cls(brightness=br, saturation=sa, world_size=ws)


def check_position(E, e, fine, auto, ws):
    off = (4, 4, 4) if auto else (0, 0, 0)
    f = 1024 / ws       # engine units of one voxel
    E.check('the light is at the position scaled to the world', E.And(*[o == (c + d) * f for o, c, d in zip((e.o.x, e.o.y, e.o.z), fine, off)]))
    E.check('no links, reserved bytes zero', list(e.links) == [] and list(e.reserved) == [0, 0, 0])


@CONTRACTS('a light with a requested colour', functions=['redeclipse.lighting.LightManager.light', 'redeclipse.lighting.LightManager.get_light', 'redeclipse.entities.Light.__init__'],
           cover=['auto', 'raw'])
def c_override(E):
    cls = E.choice('manager', [LightManager, PositionBasedLightManager])
    ws = 2 ** E.choice('log world size', list(range(5, 14)))
    m = manager(E, cls, ws, E.real('brightness'), E.real('saturation'))
    v, fine = position(E)
    col = tuple(E.int('colour' + c, 0, 255) for c in 'rgb')
    auto = E.choice('auto', ['default', True, False])
    old = ['a', 'b'][:E.choice('old', [0, 2])]
    mp = XMap(list(old))
    kw = {} if auto == 'default' else {'autocenter': auto}
    m.light(mp, v, colour_override=col, **kw)
    e = light_of(E, mp.ents, old)
    E.cover('auto' if auto else 'raw')
    check_position(E, e, fine, bool(auto), ws)
    E.check('exactly the requested colour', E.And(*[E.And(type_int(E, a), a == b) for a, b in zip(e.attrs[1:4], col)]))


@CONTRACTS('a light with the colour of the manager', functions=['redeclipse.lighting.LightManager.light', 'redeclipse.lighting.LightManager.hue'], cover=['hue'])
def c_light(E):
    """the light has the colour the manager computes for the (centred) position"""
    ws = 2 ** E.choice('log world size', [6, 7, 8])
    m = manager(E, PositionBasedLightManager, ws, 1.0, 0.5)
    v, fine = position(E)
    auto = E.choice('auto', [True, False])
    col = tuple(E.int('colour' + c, 0, 255) for c in 'rgb')
    asked = []
    def hue(pos):
        asked.append(pos)
        return col
    E.patch(m, 'hue', hue)
    mp = XMap([])
    m.light(mp, v, autocenter=auto)
    e = light_of(E, mp.ents, [])
    E.cover('hue')
    check_position(E, e, fine, auto, ws)
    E.check('the colour the manager computed', E.And(*[E.And(type_int(E, a), a == b) for a, b in zip(e.attrs[1:4], col)]))


@CONTRACTS('colours of the managers', functions=['redeclipse.lighting.PositionBasedLightManager.hue', 'redeclipse.lighting.LightManager.hue'],
           cover=['plain', 'position'], note='noise.pnoise3 returns a value in [-1, 1]')
def c_hue(E):
    cls = E.choice('manager', [LightManager, PositionBasedLightManager])
    m = manager(E, cls, 128, E.real('brightness'), E.real('saturation'))
    v = vec(E, 'p', E.choice('kind', ['F', 'C']), forms=('half',), lo=-(1 << 16), hi=1 << 16)
    c = m.hue(v)
    E.cover('plain' if cls is LightManager else 'position')
    E.check('a colour has three components', len(c) == 3)
    for n, x in zip(('red', 'green', 'blue'), c):
        E.check('%s is an integer from 0 to 255' % n, is_colour(E, x), repr(x) if not E.sym else '')


@CONTRACTS('helper entities', functions=['redeclipse.entities.%s.__init__' % c for c in ('PlayerSpawn', 'Sunlight', 'Light', 'Pusher', 'TeamFlag')] +
           ['redeclipse.entities.weapon.%s.__init__' % c for c in ('Weapon', 'Grenade', 'Shotgun')] + ['redeclipse.entities.model.MapModel.__init__'], cover=['all'])
def c_helper(E):
    cls, kind, fixed = E.choice('class', HELPERS)
    v, fine = position(E)
    order = ORDER[kind]
    val = {n: E.int('arg.' + n, -(1 << 31), (1 << 31) - 1) for n in order}
    drop = set(fixed)
    if not E.sym: drop |= {n for n in order if E.bool('omit.' + n)}
    kw = {n: val[n] for n in order if n not in drop}
    links = E.choice('links', [None, [3, 1, 2]])
    res = E.choice('reserved', [None, [1, 0, 255]])
    if links is not None: kw['links'] = list(links)
    if res is not None: kw['reserved'] = list(res)
    e = cls(xyz=v, **kw)
    E.cover('all')
    E.check('the type code of its kind', e.type == EntType[kind] and e.type.value == CODE[kind])
    E.check('the attribute names of its kind in order', list(e.attr_annotations) == order and len(e.attrs) == len(order))
    for n, a in zip(order, e.attrs):
        if n in fixed: E.check('the weapon of the helper', a == fixed[n])
        elif n in kw: E.check('the argument is stored under its name', a == val[n], n)
    E.check('links and reserved bytes as given', list(e.links) == (links or []) and list(e.reserved) == (res or [0, 0, 0]))
    s = 1 if cls is Sunlight else 4
    E.check('four times the fine position is stored', E.And(e.o.x == s * fine[0], e.o.y == s * fine[1], e.o.z == s * fine[2])
            if cls is not Sunlight else E.And(*[a == b for a, b in zip((e.o.x, e.o.y, e.o.z), xyz(v))]))
    o = cls(xyz=v)
    E.check('entities do not share their lists', o.links is not e.links and o.attrs is not e.attrs and o.reserved is not e.reserved)


@CONTRACTS('entities read from a map', functions=['redeclipse.entities.Entity.__init__'], cover=['ok', 'refused'])
def c_entity(E):
    """the generic entity: same table of attribute names; a wrong number of attributes is refused"""
    kind = E.choice('kind', sorted(ORDER))
    order = ORDER[kind]
    v, fine = position(E)
    n = len(order) + E.choice('extra', [0, 0, 1, -1] if not E.sym else [0, 1, -1])
    wt = E.choice('weapon', sorted(WeaponType, key=lambda w: w.value)).value if kind == 'ET_WEAPON' else None
    attrs = [E.int('attr%d' % i, -(1 << 31), (1 << 31) - 1) for i in range(n)]
    if wt is not None and attrs: attrs[0] = wt
    given = list(attrs)
    links = E.choice('links', [None, [4, 5]])
    res = E.choice('reserved', [None, [1, 2, 3]])
    err = E.raises(lambda: Entity(v, EntType[kind], attrs, links, res), AssertionError)
    if n != len(order):
        E.cover('refused')
        E.check('a wrong number of attributes is refused', err is not None)
        return
    E.check('the right number of attributes is accepted', err is None)
    e = E.result
    E.cover('ok')
    E.check('the attribute names of its kind in order', e.type == EntType[kind] and list(e.attr_annotations) == order and len(e.attrs) == n)
    E.check('the attributes are kept', E.And(*[(a.value if isinstance(a, WeaponType) else a) == b for a, b in zip(e.attrs, given)]))
    E.check('links and reserved bytes as given', list(e.links) == (links or []) and list(e.reserved) == (res or [0, 0, 0]))
    E.check('four times the fine position is stored', E.And(e.o.x == 4 * fine[0], e.o.y == 4 * fine[1], e.o.z == 4 * fine[2]))
