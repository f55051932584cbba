"""arbitrary maps, and the documented layout of the file a map is saved to (shared by C01, C02)"""
import sys, os
SYM = 'pyvc.shims' in sys.modules
if SYM:      # before the package: the stream model replaces struct and gzip
    from pyvc import stream, rt, core, shims
    import z3
    I = z3.IntSort()
from hlib import *
from redeclipse.enums import EntType, WeaponType, OCT, Faces, TextNum
from redeclipse.vector.re import ivec3
import redeclipse
from redeclipse import Map, MapParser
from redeclipse.entities import Entity
I32 = (-2 ** 31, 2 ** 31 - 1)
META = ('worldsize', 'numents', 'numpvs', 'lightmaps', 'blendmap', 'numvslots', 'gamever', 'revision')
NATTR = {'ET_LIGHT': 6, 'ET_MAPMODEL': 13, 'ET_PLAYERSTART': 6, 'ET_SUNLIGHT': 8, 'ET_WEAPON': 5, 'ET_PUSHER': 6, 'ET_AFFINITY': 6}
CODE = {'ET_LIGHT': 1, 'ET_MAPMODEL': 2, 'ET_PLAYERSTART': 3, 'ET_SUNLIGHT': 8, 'ET_WEAPON': 9, 'ET_PUSHER': 13, 'ET_AFFINITY': 14}
N = 1 << 30


def fn(name, k, lo=None, hi=None, den=None):
    """the value of an arbitrary function at k, between lo and hi"""
    k = k if isinstance(k, tuple) else (k,)
    f = z3.Function(name, *([I] * (len(k) + 1)))
    t = f(*[core.num(x).z() for x in k])
    if lo is not None: core.ENG.fact(z3.And(t >= lo, t <= hi), t)
    a = core.ENG.atom(t, (lo, hi), False)
    from fractions import Fraction
    return a.scale(Fraction(1, den), True) if den else a


def seq(n, el):
    """an arbitrary list of n elements el(k)"""
    b = rt.newbinders(1)[0]
    core.ENG.atom_bounds[b.get_id()] = (0, N); core.ENG.atom_keep[b.get_id()] = b
    l = rt.TList()
    l.segs = [rt.Seg(None, [b], z3.And(b >= 0, b < core.num(n).z()), el(core.ENG.atom(b, (0, N), False)), 0, n)]
    return l


if SYM:
    class Vars(rt.SeqBase):
        """an arbitrary ordered dictionary of map variables: n names, all different; the k-th value is a number, text or bytes"""
        KINDS = ('int', 'float', 'bytes', 'str')
        vc_class = dict
        def __init__(s, n, reader=False): s.n = n; s.kinds = s.KINDS[:3] if reader else s.KINDS
        def name(s, k): return stream.SBytes(z3.Function('var name', I, I)(core.num(k).z()), fn('var name length', k, 0, N))
        def kind(s, k): return s.kinds[rt.settled(rt.Pick(list(range(len(s.kinds))), z3.Function('var kind', I, I)(core.num(k).z())))]
        def value(s, k):
            kd = s.kind(k)
            if kd == 'int': return fn('var int', k, *I32)
            if kd == 'float': return fn('var float', k, -2 ** 31, 2 ** 31, 16)
            t = z3.Function('var text', I, I)(core.num(k).z())
            if kd == 'bytes': return stream.SBytes(t, fn('var length', k, 0, N))
            return stream.SText(t, fn('var length', k, 0, N), 0, fn('var characters', k, 0, N))
        def index(s, key):
            t = getattr(key, 'term', None)
            if t is None or not z3.is_app(t) or t.decl().name() != 'var name': raise core.Unsupported('map variable looked up by another name')
            k = core.ENG.atom(t.arg(0), (0, N), False)
            if not builtins_bool(core.and_(k >= 0, k < s.n)): raise core.Unsupported('no such variable')
            return k
        def vc_len(s): return s.n
        def get_segs(s): return seq(s.n, s.name).segs
        def keys(s): return rt.Seq(s.get_segs())
        def __getitem__(s, key): return s.value(s.index(key))
        def items(s): return rt.Seq(seq(s.n, lambda k: LazyItem(s, k)).segs)
        def __iter__(s): raise core.Unsupported('iteration')
        def __len__(s): raise core.Unsupported('len')
        def __getattr__(s, k):
            if k.startswith('__'): raise AttributeError(k)
            raise core.Unsupported('map_vars.' + k)

    class LazyItem(rt.Pick):
        """(name, value) of the k-th variable; settling it decides the type of the value"""
        def __init__(s, v, k): s.v, s.k = v, k
        def vc_subst(s, pairs, memo): return LazyItem(s.v, rt.subst_obj(s.k, pairs, memo))
        def settle(s): return (s.v.name(s.k), s.v.value(s.k))

    class LazyEnt(rt.Pick):
        """the k-th entity; settling it decides its type"""
        def __init__(s, w, k): s.w, s.k = w, k
        def vc_subst(s, pairs, memo): return LazyEnt(s.w, rt.subst_obj(s.k, pairs, memo))
        def settle(s): return s.w.entity(s.k)
builtins_bool = bool


class World:
    """names the parts of an arbitrary map"""
    def __init__(self, E, reader=False):
        self.E = E
        self.reader = reader
        self.version, self.headersize = E.int('version', *I32), E.int('headersize', *I32)
        self.meta = {k: E.int('meta ' + k, *I32) for k in META}
        self.nvars, self.nmru, self.nents, self.nchg = E.int('map variables', 0, 2 ** 31 - 1), E.int('mru', 0, 65535), E.int('entities', 0, 2 ** 31 - 1), E.int('slot changes', 0, N)
        self.vars = Vars(self.nvars, reader)
    def mru(self, k): return fn('mru entry', k, 0, 65535)
    def chg(self, k): return fn('slot change', k, I32[0], -1)
    def kinds(self):
        out = [(t, None) for t in CODE if t != 'ET_WEAPON']
        return out + [('ET_WEAPON', w) for w in WeaponType]
    def kind(self, k):
        ks = self.kinds()
        return ks[rt.settled(rt.Pick(list(range(len(ks))), z3.Function('entity kind', I, I)(core.num(k).z())))]
    def pos(self, k): return [fn('entity position ' + a, k, -2 ** 19, 2 ** 19, 16) for a in 'xyz']
    def attrs(self, k, t, w):
        out = [fn('attribute %d' % i, k, *I32) for i in range(NATTR[t])]
        if t == 'ET_WEAPON': out[0] = w
        if not self.reader: out[1] = out[1].scale(1, True)      # a whole number, held as a float
        return out
    def reserved(self, k): return [fn('reserved %d' % i, k, 0, 255) for i in range(3)]
    def nlinks(self, k): return fn('links', k, 0, 2 ** 31 - 1)
    def link(self, k, j): return fn('link', (k, j), *I32)
    def entity(self, k):
        t, w = self.kind(k)
        p = self.pos(k)
        e = Entity(FineVector(0, 0, 0), EntType[t], rt.TList(self.attrs(k, t, w)), seq(self.nlinks(k), lambda j: self.link(k, j)), rt.TList(self.reserved(k)))
        e.o = ivec3(*p)
        return e
    # the documented layout
    def header(self, meta, gameident):
        T = stream.Tok
        out = [T('i', self.version), T('i', self.headersize)] + [T('i', meta[k]) for k in META]
        return out + [T('s', gameident, 3), T('B', 0), T('i', self.nvars)]
    def var_items(self, k):
        T = stream.Tok
        nm, v, kd = self.vars.name(k), self.vars.value(k), self.vars.kind(k)
        out = [T('i', nm.n), T('s', nm, nm.n), T('B', 0)]
        if kd == 'int': return out + [T('i', 0), T('i', v)]
        if kd == 'float': return out + [T('i', 1), T('f', v)]
        return out + [T('i', 2), T('i', v.n), T('s', stream.SBytes(v.term, v.n), v.n), T('B', 0)]
    def ent_items(self, k):
        T, R = stream.Tok, stream.Rep
        t, w = self.kind(k)
        at = self.attrs(k, t, w)
        if w is not None: at[0] = w.value
        return [T('f', c) for c in self.pos(k)] + [T('B', CODE[t])] + [T('B', c) for c in self.reserved(k)] + [T('i', NATTR[t])] + [T('i', a) for a in at] + \
               [T('i', self.nlinks(k)), R(self.nlinks(k), lambda j: [T('i', self.link(k, j))])]
    def layout(self, magic, meta, gameident, tree):
        T, R = stream.Tok, stream.Rep
        return [T('B', b) for b in magic] + self.header(meta, gameident) + [R(self.nvars, self.var_items), T('H', self.nmru), R(self.nmru, lambda k: [T('H', self.mru(k))]),
                R(self.nents, self.ent_items), R(self.nchg, lambda k: [T('i', self.chg(k))])] + tree
    def map(self, magic, meta, tree, gameident):
        m = Map(magic, self.version, self.headersize, None, None, None, None, None, None, tree)
        d = [(k, self.meta[k]) for k in META]
        d += [('gameident', gameident), ('numvars', self.E.int('meta numvars', *I32))]
        m.meta = rt.TDict(d)
        m.map_vars = self.vars
        m.texmru = seq(self.nmru, self.mru)
        m.ents = seq(self.nents, lambda k: LazyEnt(self, k))
        m.chg = seq(self.nchg, self.chg)
        m.vslots = rt.TList()
        return m


# --------------------------------------------------------------------------- cubes

LOW = {'children': 0, 'empty': 1, 'solid': 2, 'normal': 3, 'lod': 4}


class Cube:
    """the saved fields of an arbitrary cube, and the bytes documented for it"""
    def __init__(self, E, tag='cube', kinds=tuple(LOW)):
        self.E = E
        b = lambda n: E.int(tag + '.' + n, 0, 255)
        s = lambda n: E.int(tag + '.' + n, 0, 65535)
        self.kind = E.choice(tag + '.kind', list(kinds))
        self.flags = E.choice(tag + '.flags', [0, 0x20, 0x40, 0x80, 0x60, 0xA0, 0xC0, 0xE0])
        self.rest = E.choice(tag + '.rest', [0, 0x18])
        self.octsav = LOW[self.kind] | self.flags | self.rest
        if self.kind == 'children': return
        self.edges = [b('edge%d' % i) for i in range(12)]
        self.texture = [s('texture%d' % i) for i in range(6)]
        self.material, self.merged = s('material'), b('merged')
        self.surfmask = 0
        if self.flags & 0x20:
            self.surfmask = E.choice(tag + '.sides', list(range(64)))
            if self.surfmask in (0, 63): self.surfmask |= E.choice(tag + '.mask', [0, 0xC0])
            self.totalverts = b('totalverts')
            # surfaces without vertices: verts and the vertex count in numverts are zero
            self.surfaces = [(b('lmid%d' % i), b('lmid\'%d' % i), 0, E.int(tag + '.layer%d' % i, 0, 15) * 16) for i in range(6)]
    def items(self):
        """(code, value) of every field in file order, without the children"""
        out = [('B', self.octsav)]
        if self.kind == 'children': return out
        if self.kind == 'normal': out += [('B', e) for e in self.edges]
        out += [('H', t) for t in self.texture]
        if self.flags & 0x40: out += [('H', self.material)]
        if self.flags & 0x80: out += [('B', self.merged)]
        if self.flags & 0x20:
            out += [('B', self.surfmask), ('B', self.totalverts)]
            for i in range(6):
                if self.surfmask >> i & 1: out += [('B', x) for x in self.surfaces[i]]
        return out
    def build(self, style=0):
        """a cube object with these fields"""
        from redeclipse.objects import cube, cubext, SurfaceInfo
        c = cube.newcube()
        c.octsav = self.octsav
        if self.kind == 'children':
            c.children = list(range(8))
            return c
        c.edges = tuple(self.edges) if style else list(self.edges)
        c.texture = [TextNum(t) if isinstance(t, int) and t < 2 and style else t for t in self.texture]
        if self.flags & 0x40 or style: c.material = self.material
        if self.flags & 0x80 or style: c.merged = self.merged
        if self.flags & 0x20:
            c.surfmask, c.totalverts = self.surfmask, self.totalverts
            c.ext = cubext()
            c.ext.surfaces = [SurfaceInfo(*x) if self.surfmask >> i & 1 or style else None for i, x in enumerate(self.surfaces)]
        return c
    def same(self, c):
        """obligations: cube object c has these fields"""
        E = self.E
        E.check('the marker byte is the same', c.octsav == self.octsav)
        if self.kind == 'children': return
        if self.kind == 'normal': E.check('the edges are the same', E.And(len(c.edges) == 12, *[a == b for a, b in zip(c.edges, self.edges)]))
        E.check('the six textures are the same', E.And(len(c.texture) == 6, *[(a.value if isinstance(a, TextNum) else a) == b for a, b in zip(c.texture, self.texture)]))
        if self.flags & 0x40: E.check('the material is the same', c.material == self.material)
        if self.flags & 0x80: E.check('the merge byte is the same', c.merged == self.merged)
        if self.flags & 0x20:
            E.check('the surface mask and vertex count are the same', E.And(c.surfmask == self.surfmask, c.totalverts == self.totalverts))
            for i in range(6):
                if self.surfmask >> i & 1:
                    s = c.ext.surfaces[i]
                    E.check('the surfaces are the same', E.And(*[a == b for a, b in zip((s.lmid[0], s.lmid[1], s.verts, s.numverts), self.surfaces[i])]))


class Bar:
    def update(self, *a): pass
    def close(self): pass
    def __getattr__(self, k): return lambda *a, **k: None


# --------------------------------------------------------------------------- concrete maps (bounded search and replay)
import struct, gzip, tempfile
from collections import OrderedDict


def name_of(E):
    return bytes(E.choice('char', list(b'abcz09_') + [0x80, 0xff, 0]) for _ in range(E.int('name length', 0, 6)))


def concrete_tree(E, size, depth=0):
    """[(Cube, children or None)] * 8"""
    out = []
    for i in range(8):
        ks = ['empty', 'solid', 'normal', 'lod'] + (['children'] if size > 4 and depth < 3 else [])
        must = size > 0x1000
        k = 'children' if must else E.choice('cube kind', ks if depth == 0 or E.choice('deep', [0, 0, 1]) else ks[:4])
        q = Cube(E, 'c', (k,))
        out.append((q, concrete_tree(E, size >> 1, depth + 1) if k == 'children' else None))
    return out


def build_tree(E, t):
    out = []
    for q, ch in t:
        c = q.build(E.choice('style', [0, 1]))
        if ch is not None: c.children = build_tree(E, ch)
        out.append(c)
    return out


def tree_bytes(t):
    r = b''
    for q, ch in t:
        for c, v in q.items(): r += struct.pack('<' + c, v)
        if ch is not None: r += tree_bytes(ch)
    return r


def concrete_map(E, reader=False):
    """(map, bytes documented for it, description)"""
    kinds = [t for t in CODE]
    magic = E.choice('magic', [b'MAPZ', b'BFGZ'])
    d = dict(version=E.int('version', *I32), headersize=E.int('headersize', *I32))
    meta = OrderedDict()
    ws = 2 ** E.int('log world size', 3, 12)
    for k in META: meta[k] = ws if k == 'worldsize' else E.int('meta ' + k, *I32)
    meta['gameident'] = bytes(E.choice('ident', list(b'fpsx')) for _ in range(3))
    meta['numvars'] = E.int('meta numvars', *I32)
    mv = OrderedDict()
    for _ in range(E.int('vars', 0, 4)):
        k = E.choice('var kind', ['int', 'float', 'bytes', 'str'])
        mv[name_of(E)] = E.int('v', *I32) if k == 'int' else E.grid('v', -1000, 1000, 16) if k == 'float' else name_of(E) if k == 'bytes' else E.choice('text', ['', 'abc', 'é', 'a\0b'])
    mru = [E.int('mru', 0, 65535) for _ in range(E.int('mrus', 0, 4))]
    ents, spec = [], []
    for _ in range(E.int('ents', 0, 4)):
        t = E.choice('entity', kinds)
        attrs = [E.int('attr', *I32) for _ in range(NATTR[t])]
        if t == 'ET_WEAPON': attrs[0] = E.choice('weapon', list(WeaponType)).value
        links = [E.int('link', *I32) for _ in range(E.int('links', 0, 3))]
        res = [E.int('reserved', 0, 255) for _ in range(3)]
        p = [E.grid('p', -2 ** 15, 2 ** 15, 16) for _ in range(3)]
        e = Entity(FineVector(*p), EntType[t], [float(a) if i and E.bool('as float') else a for i, a in enumerate(attrs)], list(links), list(res))
        ents.append(e)
        spec.append((t, attrs, links, res, [4 * x for x in p]))
    chg = [-E.int('slot', 1, 5) for _ in range(E.int('chgs', 0, 3))]
    meta['numvslots'] = -sum(chg)
    if E.choice('deep world', [0] * 9 + [1]): meta['worldsize'] = ws = 16384
    t = concrete_tree(E, meta['worldsize'] >> 1)
    m = Map(E.choice('magic type', [magic, magic.decode()]), d['version'], d['headersize'], meta, mv, mru, ents, [], chg, build_tree(E, t))
    P = struct.pack
    b = magic + P('<ii', d['version'], d['headersize'])
    for k in META: b += P('<i', len(ents) if k == 'numents' else meta[k])
    b += meta['gameident'] + b'\0' + P('<i', len(mv))
    for k, v in mv.items():
        b += P('<i', len(k)) + k + b'\0'
        if isinstance(v, int): b += P('<ii', 0, v)
        elif isinstance(v, float): b += P('<if', 1, v)
        else:
            v = v.encode() if isinstance(v, str) else v
            b += P('<ii', 2, len(v)) + v + b'\0'
    b += P('<H', len(mru)) + b''.join(P('<H', x) for x in mru)
    for ty, attrs, links, res, p in spec:
        b += P('<fff', *p) + bytes([CODE[ty]] + res) + P('<i', len(attrs)) + b''.join(P('<i', a) for a in attrs) + P('<i', len(links)) + b''.join(P('<i', a) for a in links)
    b += b''.join(P('<i', c) for c in chg) + tree_bytes(t)
    return m, b, dict(magic=magic, meta=dict(meta, numents=len(ents), numvars=len(mv)), vars=OrderedDict((k, v.encode() if isinstance(v, str) else v) for k, v in mv.items()), mru=mru, ents=spec, chg=chg, tree=t, **d)


def scratch():
    return tempfile.TemporaryDirectory()
