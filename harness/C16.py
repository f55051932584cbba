import sys, os, io
SYM = 'pyvc.shims' in sys.modules
if SYM:
    from pyvc import stream, rt, core, shims
    import z3
from pyvc.hapi import Registry
from hlib import *
from hmap import fn, seq
import C04
from redeclipse.voxel import VoxelWorld
from redeclipse.magicavoxel.writer import to_magicavoxel
from redeclipse.magicavoxel.reader import Magicavoxel
from redeclipse.objects import cube
CONTRACTS = Registry()
M = 1 << 20
for _c in C04.CONTRACTS:
    if _c.name == 'extremes after one operation': CONTRACTS.append(_c)


def T(c, v): return stream.Tok(c, v)
def text(s): return [T('B', b) for b in s]
def inside(p): return core.and_(*[core.and_(c >= 0, c <= 255) for c in p])


class Voxels:
    """an arbitrary world of n voxels: the k-th one has a position and a texture number of the atlas"""
    def __init__(self, E):
        self.E = E
        self.n, self.m = E.int('voxels', 0, 1 << 24), E.int('colours', 0, 255)
        self.float = E.choice('coordinates', ['int', 'float']) == 'float'
        self.max = [E.int(a + 'max', 0, M) for a in 'xyz']
        self.min = [E.int(a + 'min', -M, M) for a in 'xyz']
        self.den = 1024
    def pos(self, k):
        out = []
        for a, hi, lo in zip('xyz', self.max, self.min):
            v = fn('voxel ' + a, k, -M, M)
            t = v.z()
            core.ENG.fact(z3.And(t <= core.num(hi).z(), t >= core.num(lo).z()), t)       # the extremes bound every voxel (contract above)
            out.append(core.with_f(v, True) if self.float else v)
        return tuple(out)
    def tex(self, k):
        v = fn('voxel texture', k, 0, 254)
        core.ENG.fact(v.z() < core.num(self.m).z(), v.z())
        return v
    def member(self, k): return core.and_(k >= 0, k < self.n, inside(self.pos(k)))
    def cube(self, k): return Voxel([self.tex(k)] * 6)
    def colour(self, k): return [fn('colour ' + a, k, 0, self.den, self.den) for a in 'rgb']
    def count(self):
        b = rt.newbinders(1)[0]
        core.ENG.atom_bounds[b.get_id()] = (0, 1 << 24); core.ENG.atom_keep[b.get_id()] = b
        c = rt.Seg(None, [b], z3.And(b >= 0, core.bz(self.member(core.ENG.atom(b, (0, 1 << 24), False)))), None).count()
        core.ENG.define(core.bz(c <= self.n))       # a part of n voxels
        return c


if SYM:
    class Voxel(rt.VCBase):
        def __init__(self, texture): self.texture = texture
    class Tex(rt.VCBase):
        def __init__(self, rgb): self.r, self.g, self.b = rgb
    class Table(rt.SeqBase):
        """a dictionary in insertion order, given by its items"""
        vc_class = dict
        def __init__(s, n, key, val): s.n, s.key, s.val = n, key, val
        def get_segs(s): return seq(s.n, s.key).segs
        def keys(s): return rt.Seq(s.get_segs())
        def values(s): return rt.Seq(seq(s.n, s.val).segs)
        def items(s): return rt.Seq(seq(s.n, lambda k: (s.key(k), s.val(k))).segs)
        def vc_len(s): return s.n
        def __len__(s): raise core.Unsupported('len')
        def __iter__(s): raise core.Unsupported('iteration')
        def __bool__(s): return bool(s.n != 0)
        def __getattr__(s, k):
            if k.startswith('__'): raise AttributeError(k)
            raise core.Unsupported('dict.' + k)


def layout(W, sizes, count, records):
    """the .vox file: header, MAIN with SIZE, XYZI and RGBA"""
    A = stream.Any
    byte = lambda x: A(lambda v: core.and_(v > 255 * x - 1, v < 255 * x + 1))
    cs = 4 + 4 * count
    return text(b'VOX ') + [T('i', 150)] + text(b'MAIN') + [T('i', 0), T('i', 12 + 12 + 12 + cs + 12 + 1024)] + \
        text(b'SIZE') + [T('i', 12), T('i', 0)] + sizes + text(b'XYZI') + [T('i', cs), T('i', 0), T('i', count)] + records + \
        text(b'RGBA') + [T('i', 1024), T('i', 0), stream.Rep(W.m, lambda k: [T('B', byte(c)) for c in W.colour(k)] + [T('B', A(lambda v: True))]),
                         stream.Rep(256 - W.m, lambda k: [T('B', A(lambda v: True)) for _ in range(4)])]


@CONTRACTS('the file written for a world', functions=['redeclipse.magicavoxel.writer.to_magicavoxel'], cover=['written'], opts={'count_equiv': True},
           note='at most 2**24 different positions lie in 0..255 (counting); voxel textures are the six equal textures of newtexcube; colours on the grid k/1024 in the proof')
def c_write(E):
    if not E.sym: return concrete(E)
    W = Voxels(E)
    W.count()
    w = VoxelWorld(64)
    w.world = Table(W.n, W.pos, W.cube)
    for a, hi, lo in zip('xyz', W.max, W.min): setattr(w, a + 'max', hi); setattr(w, a + 'min', lo)
    class Man: atlas = Table(W.m, lambda k: k, lambda k: Tex(W.colour(k)))
    out = stream.Stream()
    to_magicavoxel(w, out, Man())
    E.cover('written')
    def size(i):
        def pred(v):
            k = E.int('any voxel', 0, 1 << 24)
            return core.and_(v >= 0, v <= 256, core.or_(core.not_(W.member(k)), v > W.pos(k)[i]))
        return T('i', stream.Any(pred))
    stream.compare(E, out.items, layout(W, [size(i) for i in range(3)], W.count(), [stream.Among(W.member, lambda k: [T('B', c) for c in W.pos(k)] + [T('B', W.tex(k) + 1)])]))


@CONTRACTS('a .vox file is read', functions=['redeclipse.magicavoxel.reader.Magicavoxel.' + f + '__init__' for f in ('', 'SizeChunk.', 'XyziChunk.', 'Voxels.', 'PaletteChunk.', 'Colour.')], cover=['read'])
def c_read(E):
    """the reader on a file with the layout above: n records, colours"""
    if not E.sym: return concrete(E)
    n = E.int('records', 0, 1 << 24)
    rec = lambda k: [fn('record ' + a, k, 0, 255) for a in 'xyzc']
    col = [[E.int('colour', 0, 255) for _ in range(4)] for _ in range(256)]
    size = [E.int('size ' + a, 0, 256) for a in 'xyz']
    cs = 4 + 4 * n
    items = text(b'VOX ') + [T('i', 150)] + text(b'MAIN') + [T('i', 0), T('i', 48 + cs + 1024)] + text(b'SIZE') + [T('i', 12), T('i', 0)] + [T('i', s) for s in size] + \
        text(b'XYZI') + [T('i', cs), T('i', 0), T('i', n), stream.Rep(n, lambda k: [T('B', c) for c in rec(k)])] + text(b'RGBA') + [T('i', 1024), T('i', 0)] + \
        [T('B', c) for cs_ in col for c in cs_] + [stream.Tok('end', 0, 1)]
    blob = stream.Blob(items)
    E.eng.opts['cursor'] = blob
    how = E.choice('opened', ['file', 'stream'])
    if how == 'file':
        def op(path, mode):
            E.check('the file is opened for reading', path == '/some/where/in.vox' and mode == 'rb')
            return blob
        E.eng.opts['open'] = op
        m = Magicavoxel.from_file('/some/where/in.vox')
    else: m = Magicavoxel(stream.KaitaiStream(blob))
    E.cover('read')
    st = blob.locate(m._io.at)
    E.check('the reader consumes the whole file', st[0] == () and items[st[3]].code == 'end')
    v = m.model_voxels.voxels
    E.check('as many voxels as records', E.And(m.model_voxels.num_voxels == n, v.vc_len() == n if hasattr(v, 'vc_len') else len(v) == n))
    s = m.model_size
    E.check('the declared size', E.And(*[a == b for a, b in zip((s.x, s.y, s.z), size)]))
    p = m.palette.colours
    E.check('the palette has 256 entries', len(p) == 256)
    E.check('the colours in order', E.And(*[E.And(c.r == w[0], c.g == w[1], c.b == w[2], c.a == w[3]) for c, w in zip(p, col)]))
    k = E.int('which', 0, 1 << 24)
    E.assume(k < n)
    x = v[k]
    E.check('there is a voxel for every record', x is not None)
    if x is not None: E.check('the voxels in order', E.And(*[a == b for a, b in zip((x.x, x.y, x.z, x.c), rec(k))]))


def concrete(E):
    """a world is exported and read back on the real code"""
    import struct
    w = VoxelWorld(E.choice('size', [1, 64, 256]))
    class Tex: pass
    class Man: atlas = {}
    man = Man()
    for i in range(E.choice('colours', [1, 2, 5, 200, 254, 255])):
        t = Tex()
        t.r, t.g, t.b = [E.choice('c', [0, 1, 0.5, 0.1, 1.0]) if E.bool('c?') else E.int('byte', 0, 255) / 255 for _ in range(3)] if i < 6 else (i / 255, (i * 7 % 256) / 255, 0.25)
        man.atlas[i] = t
    want = {}
    big = [0, 255, 256, -1, 300, 1, 254]
    for _ in range(E.int('voxels', 0, 8)):
        p = tuple(E.choice('edge', big) if E.bool('edge?') else E.int('v', 0, 255) for _ in range(3))
        if E.choice('op', ['set', 'set', 'set', 'del']) == 'del' and w.world: p = E.choice('existing', sorted(w.world)); w.del_point(*p)
        else:
            q = tuple(float(c) for c in p) if E.bool('float') else p
            w.set_point(*q, cube.newtexcube(tex=E.int('tex', 0, 254) % len(man.atlas)))
    for p, v in w.world.items():
        if all(0 <= c <= 255 for c in p): want[tuple(int(c) for c in p)] = v.texture[0]
    out = io.BytesIO()
    to_magicavoxel(w, out, man)
    d = out.getvalue()
    E.cover('written'); E.cover('read')
    E.check('the file has the documented layout', d[:8] == b'VOX ' + struct.pack('<i', 150))
    def chunks(b):
        r = []
        while b:
            E.check("every chunk's declared size equals its content", len(b) >= 12)
            n, c = struct.unpack('<ii', b[4:12])
            E.check("every chunk's declared size equals its content", n >= 0 and c >= 0 and len(b) >= 12 + n + c, '%s: %d + %d of %d' % (b[:4], n, c, len(b) - 12))
            r.append((b[:4], b[12:12 + n], b[12 + n:12 + n + c]))
            b = b[12 + n + c:]
        return r
    top = chunks(d[8:])
    E.check('one MAIN chunk', [t[:2] for t in top] == [(b'MAIN', b'')])
    sub = chunks(top[0][2])
    E.check('SIZE, XYZI and RGBA', [s[0] for s in sub] == [b'SIZE', b'XYZI', b'RGBA'] and all(s[2] == b'' for s in sub))
    E.check('the voxel count is the number of records', len(sub[1][1]) == 4 + 4 * struct.unpack('<i', sub[1][1][:4])[0])
    E.check('the palette has 256 entries', len(sub[2][1]) == 1024)
    m = Magicavoxel.from_bytes(d)
    E.check('the reader consumes the whole file', m._io.pos() == len(d))
    p = m.palette.colours
    vs = m.model_voxels.voxels
    got = {(v.x, v.y, v.z): v.c for v in vs}
    E.check('precisely the voxels in 0..255', len(vs) == len(got) and set(got) == set(want), str((got, want)))
    E.check('the palette has 256 entries', len(p) == 256)
    s = m.model_size
    for q, c in got.items():
        E.check('the declared size encloses the voxels', q[0] < s.x and q[1] < s.y and q[2] < s.z, str((q, s.x, s.y, s.z)))
        E.check('the index selects a colour', 1 <= c <= 255)
        t = man.atlas[want[q]]
        e = p[c - 1]
        for a, b in ((e.r, t.r), (e.g, t.g), (e.b, t.b)):
            E.check('the index selects the colour of the texture', abs(a - 255 * b) < 1 and (a == round(255 * b) if round(255 * b) / 255 == b else True), str((a, b)))
