from pyvc.hapi import Registry, Contract
from hmap import *
import C02
CONTRACTS = Registry()
R = 'redeclipse.'
for _c in C02.CONTRACTS:
    if _c.name in ('a saved map has the documented layout', 'the fields of a cube', 'the cubes of a node'):
        # the writer against the documented layout, as in C02; on the real code the round trip itself
        CONTRACTS.append(Contract(_c.name, (lambda f: lambda E: f(E) if E.sym else concrete_roundtrip(E))(_c.fn), functions=_c.functions, cover=_c.cover, opts=_c.opts, side='writer'))


@CONTRACTS('a file with the documented layout is read as the map', functions=[R + 'MapParser.' + f for f in ('read', '_loadents', '_read_int', '_read_char', '_read_custom', '_MapParser__read_custom', '_read_float', '_read_ushort', '_read_str')] +
           [R + 'entities.Entity.__init__'], cover=['read'], opts={'ordered': True}, side='reader')
def c_read(E):
    """MapParser.read on the documented bytes of an arbitrary map: slots and cubes by the contracts below"""
    if not E.sym: return concrete_roundtrip(E)
    from redeclipse.objects import cube
    W = World(E, reader=True)
    what = E.choice('part', ['variables', 'mru', 'entities'])
    magic = E.choice('magic', [b'MAPZ', b'BFGZ']) if what == 'mru' else b'MAPZ'
    gi = stream.SBytes(z3.Int('game identifier'), 3)
    meta = dict(W.meta, numents=W.nents)
    items = W.layout(magic, meta, gi, [stream.Tok('tree', 0, 1), stream.Tok('end', 0, 1)])
    blob = stream.Blob(items)
    E.eng.opts['cursor'] = blob
    E.eng.opts['odict'] = stream.Ordered
    opened = []
    class Handle:
        def __enter__(s): return s
        def __exit__(s, *a): return False
        def read(s, *a): return blob
        def close(s): pass
    def op(path, mode):
        opened.append((path, mode))
        return Handle()
    E.eng.opts['gzip'] = op
    p = MapParser()
    chg, slots, tree = seq(W.nchg, W.chg), seq(E.int('slots', 0, N), lambda k: fn('slot', k, 0, N)), [object() for _ in range(8)]
    seen = []
    def loadvslots(n):
        E.check('the slots are read for the number of slots in the header', n == W.meta['numvslots'])
        st = blob.at_star(p.index)
        E.check('the slots are read where they are stored', st is not None and st[0] == (len(items) - 3,))
        p.index = blob.pos(st, None, True)
        seen.append('slots')
        return slots, chg
    def loadchildren(size, failed, indent=0):
        at = blob.locate(p.index)
        E.check('the tree is read where it is stored', at[0] == () and items[at[3]].code == 'tree')
        p.index = p.index + 1
        seen.append('tree')
        return tree
    E.patch(p, '_loadvslots', loadvslots, must=True)
    E.patch(p, '_loadchildren', loadchildren, must=True)
    checked = []
    E.patch(cube, 'validatec', staticmethod(lambda c, size: checked.append((c, size))))
    m = p.read('/some/where/in.mpz')
    E.cover('read')
    if seen != ['slots', 'tree']: raise core.Unsupported('slots or cubes are read in another way')
    E.check('the file is opened for reading', len(opened) == 1 and opened[0][0] == '/some/where/in.mpz' and opened[0][1] in ('rb', 'r'))
    E.check('the cubes and slots are those read', m.world is tree and m.vslots is slots and m.chg is chg)
    E.check('the magic is the same', m.magic == magic)
    E.check('version and header size are the same', E.And(m.version == W.version, m.headersize == W.headersize))
    want = [(k, meta[k]) for k in META] + [('gameident', gi), ('numvars', W.nvars)]
    got = list(m.meta.log._c())
    E.check('the header fields are the same, in order', [k for k, v in got] == [k for k, v in want])
    for (k, a), (_, b) in zip(got, want): E.check('the header fields are the same, in order', E.Eq(a, b), k)
    k = E.int('which', 0, 2 ** 31 - 1)
    if what == 'variables':
        l = m.map_vars.log
        E.check('as many variables', l.vc_len() == W.nvars)
        E.assume(k < W.nvars)
        nm, v = l[k]
        kd, w = W.vars.kind(k), W.vars.value(k)
        E.check('the same variable names in order', E.Eq(nm, W.vars.name(k)))
        E.check('the same type of value', type(v).__name__ == kd if not isinstance(v, (core.Num, core.OpF, stream.SBytes)) else {'int': isinstance(v, core.Num) and not v.f, 'float': isinstance(v, (core.OpF, core.Num)) and getattr(v, 'f', True), 'bytes': type(v) is stream.SBytes}[kd])
        E.check('the same value', E.Eq(v, w))
    elif what == 'mru':
        E.check('as many textures', m.texmru.vc_len() == W.nmru)
        E.assume(k < W.nmru)
        E.check('the same textures in order', m.texmru[k] == W.mru(k))
    else:
        E.check('as many entities', m.ents.vc_len() == W.nents)
        E.assume(k < W.nents)
        a, b = rt.settled(m.ents[k]), W.entity(k)
        E.check('the same type', a.type == b.type)
        E.check('the same position', E.And(a.o.x == b.o.x, a.o.y == b.o.y, a.o.z == b.o.z))
        E.check('the same attributes', E.And(len(a.attrs) == len(b.attrs), *[x == y for x, y in zip(a.attrs, b.attrs)]))
        E.check('weapons have a weapon type', a.type != EntType.ET_WEAPON or isinstance(a.attrs[0], WeaponType))
        E.check('the same reserved bytes', E.And(len(a.reserved) == 3, *[x == y for x, y in zip(a.reserved, b.reserved)]))
        E.check('as many links', a.links.vc_len() == b.links.vc_len())
        j = E.int('link', 0, 2 ** 31 - 1)
        E.assume(j < b.links.vc_len())
        E.check('the same links', a.links[j] == b.links[j])


@CONTRACTS('the slot changes are read', functions=[R + 'MapParser._loadvslots'], cover=['read', 'loop'], side='reader')
def c_vslots(E):
    """_loadvslots on an arbitrary list of relative changes whose sum is the number of slots"""
    if not E.sym: return concrete_roundtrip(E)
    n, total = E.int('changes', 0, N), E.int('slots', 0, 2 ** 31 - 1)
    chg = lambda k: fn('slot change', k, I32[0], -1)
    S = z3.Function('slots before change', I, I)
    def before(j):
        """number of slots before change j (facts: the sums grow from 0 to the total)"""
        t, z = S(core.num(j).z()), core.num(j).z()
        nz, tz = core.num(n).z(), core.num(total).z()
        core.ENG.define(z3.And(S(z3.IntVal(0)) == 0, S(nz) == tz))
        core.ENG.define(z3.Implies(z3.And(z >= 0, z <= nz), z3.And(t >= 0, t <= tz)))
        core.ENG.define(z3.Implies(z3.And(z >= 0, z < nz), z3.And(t < tz, S(z + 1) == t - core.num(chg(j)).z(), S(z + 1) <= tz)))
        return core.ENG.atom(t, (0, 2 ** 31 - 1), False)
    items = [stream.Tok('i', 0), stream.Rep(n, lambda k: [stream.Tok('i', chg(k))]), stream.Tok('end', 0, 1)]
    blob = stream.Blob(items)
    E.eng.opts['cursor'] = blob
    p = MapParser()
    p.bytes, p.index = blob, 4
    star = blob.at_star(4)
    G = lambda: None
    G.j = 0
    def first(): pass
    def havoc():
        G.j = E.int('iterations', 0, N)
        E.assume(G.j <= n)
        before(G.j)
        before(G.j + 1)
        p.index = blob.pos(star, core.num(G.j).z())
    def advance():
        E.cover('loop')
        E.check('one change is read per step', blob.iteration_done(star, core.num(G.j).z(), p.index))
        E.check('no more changes are read than stored', G.j < n)
        G.j = G.j + 1
    from redeclipse.objects import VSlot
    E.eng.opts['while_handler'] = rt.WhileCut(first, havoc, lambda: None, lambda: [lambda v: v - before(G.j), lambda v: v + before(G.j), lambda v: before(G.j), lambda v: v + G.j, lambda v: v - G.j, lambda v: v],
                                              changes=[(p, 'index')], lists=lambda: [(G.j, chg), (before(G.j), lambda i: VSlot(None, i))], advance=advance)
    slots, changes = p._loadvslots(total)
    if E.eng.opts['while_handler'].tok is None: raise core.Unsupported('no loop')
    E.cover('read')
    E.check('as many changes as stored', changes.vc_len() == n)
    E.check('all changes are consumed', p.index == blob.pos(star, core.num(n).z()))
    E.check('as many slots as stated', slots.vc_len() == total)
    k = E.int('which', 0, N)
    if E.choice('part', ['changes', 'slots']) == 'changes':
        E.assume(k < n)
        E.check('the changes are the same in order', changes[k] == chg(k))
    else:
        E.assume(k < total)
        E.check('the slots are numbered in order', E.And(slots[k].a is None, slots[k].b == k))


def vertex_count(s):
    r = s.numverts % 16
    if not isinstance(r, int) and not isinstance(s.numverts, int): 
        return core.ite_num(s.numverts // 128 % 2 == 1, r * 2, r)
    return r * 2 if isinstance(r, int) and r and s.numverts >= 128 else r


@CONTRACTS('the vertex count of a surface', functions=[R + 'objects.SurfaceInfo.totalverts', R + 'objects.SurfaceInfo.__init__'], cover=['some', 'none'])
def c_totalverts(E):
    from redeclipse.objects import SurfaceInfo
    n = E.choice('numverts', list(range(256)))
    s = SurfaceInfo(E.int('a', 0, 255), E.int('b', 0, 255), E.int('verts', 0, 255), n)
    E.cover('some' if n & 15 else 'none')
    E.check('the count is the low half byte, doubled for duplicated layers', s.totalverts() == vertex_count(s))


@CONTRACTS('the fields of a cube are read', functions=[R + 'MapParser._loadc', R + 'objects.SurfaceInfo.__init__', R + 'objects.cube.newcubeext'], cover=list(LOW), side='reader')
def c_loadc(E):
    """_loadc on the documented bytes of an arbitrary cube, anywhere in the file; the children by contract"""
    if not E.sym: return concrete_roundtrip(E)
    from redeclipse.objects import cube, SurfaceInfo
    E.patch(SurfaceInfo, 'totalverts', vertex_count)
    q = Cube(E)
    items = [stream.Rep(E.int('before', 0, N), lambda k: [stream.Tok('B', 0)])] + C02.tok(q.items())
    if q.kind == 'children': items.append(stream.Tok('tree', 0, 1))
    items.append(stream.Tok('end', 0, 1))
    blob = stream.Blob(items)
    p = MapParser()
    p.bytes, p.index = blob, blob.pos(blob.at_star(0), None, True)
    seen = []
    kids = [object() for _ in range(8)]
    def loadchildren(size, failed, indent=0):
        at = blob.locate(p.index)
        E.check('the children are read where they are stored', items[at[3]].code == 'tree')
        E.check('nothing has failed', not failed)
        p.index = p.index + 1
        seen.append(size)
        return kids
    E.patch(p, '_loadchildren', loadchildren, must=True)
    c = cube.newcubes(Faces.F_EMPTY, 0)[0]
    r = p._loadc(c, 2 ** E.choice('log size', [0, 3, 12]) if q.kind == 'children' else 8, False, indent=1)
    E.cover(q.kind)
    E.check('reading a cube does not fail', len(r) == 2 and r[0] is False)
    c = r[1]
    if q.kind == 'children':
        if not seen: raise core.Unsupported('children read in another way')
        E.check('the children are those read', len(seen) == 1 and c.children is kids)
    else:
        E.check('no children are read', seen == [] and not c.children)
    q.same(c)
    at = blob.locate(p.index)
    E.check('exactly the bytes of the cube are consumed', items[at[3]].code == 'end')


@CONTRACTS('the cubes of a node are read', functions=[R + 'MapParser._loadchildren', R + 'objects.cube.newcubes'], cover=['read'], side='reader')
def c_loadchildren(E):
    if not E.sym: return concrete_roundtrip(E)
    p = MapParser()
    p.bytes, p.index = None, E.int('position', 0, N)
    start = p.index
    got, made = [], []
    size = 2 ** E.choice('log size', [0, 3, 12])
    def loadc(c, s, failed, indent=0):
        E.check('the cubes of a node have the size of the node', s == size)
        E.check('nothing has failed', not failed)
        E.check('each cube is read into its own object', all(c is not x for x in got))
        p.index = p.index + 1
        got.append(c)
        made.append(c if E.choice('same object', [True, False]) else type(c)())
        return False, made[-1]
    E.patch(p, '_loadc', loadc, must=True)
    E.rng = None
    arr = p._loadchildren(size, False, indent=E.choice('depth', [0, 3]))
    E.cover('read')
    if not got: raise core.Unsupported('cubes read in another way')
    E.check('eight cubes in order', len(arr) == 8 and len(made) == 8 and all(a is b for a, b in zip(arr, made)))
    E.check('nothing else is consumed', p.index == start + 8)


@CONTRACTS('validation leaves the saved fields alone', functions=[R + 'objects.cube.validatec', R + 'objects.cube.emptyfaces', R + 'objects.cube.setfaces'], cover=['children', 'leaf'])
def c_validate(E):
    """one call of validatec on eight cubes; the recursive calls by this contract"""
    if not E.sym: return concrete_roundtrip(E)
    from redeclipse.objects import cube
    log = []
    class Sub(cube):
        @classmethod
        def validatec(cls, arr, size, depth=0): log.append((arr, size))
    size = 2 ** E.choice('log size', list(range(0, 13)))
    which = E.choice('children', [0, 1, 0x80, 0x55, 0xFF, 0x3C])
    arr = []
    for i in range(8):
        c = cube.newcube(E.choice('faces', [Faces.F_EMPTY, Faces.F_SOLID]) if i == 0 else [Faces.F_EMPTY, Faces.F_SOLID][i % 2])
        if which >> i & 1 and size > 1: c.children = [object() for _ in range(8)]
        c.edges, c.texture, c.material, c.merged = [E.int('edge', 0, 255)] * 12, [E.int('texture', 0, 65535)] * 6, E.int('material', 0, 65535), E.int('merged', 0, 255)
        c.octsav, c.surfmask, c.totalverts = E.int('octsav', 0, 255), E.int('surfmask', 0, 255), E.int('totalverts', 0, 255)
        c.ext = object()
        arr.append(c)
    FIELDS = ('edges', 'texture', 'material', 'merged', 'octsav', 'surfmask', 'totalverts', 'ext', 'children')
    old = [{f: getattr(c, f) for f in FIELDS} for c in arr]
    inner = [(tuple(c.edges), tuple(c.texture)) for c in arr]
    cubes = list(arr)
    cube.validatec.__func__(Sub, arr, size)
    for c in arr: E.cover('children' if c.children else 'leaf')
    E.check('the cubes are the same', len(arr) == 8 and all(a is b for a, b in zip(arr, cubes)))
    E.check('the saved fields are the same', all(getattr(c, f) is o[f] for c, o in zip(arr, old) for f in FIELDS))
    E.check('the saved fields are the same', all(a is b for c, (e, t) in zip(arr, inner) for a, b in list(zip(c.edges, e)) + list(zip(c.texture, t))))
    E.check('only the children of the cubes are visited', all(any(a is c.children for c in arr) and s < size for a, s in log))


def concrete_roundtrip(E):
    m, want, d = concrete_map(E)
    with scratch() as s:
        path = os.path.join(s, 'map.mpz')
        m.write(path)
        n = MapParser().read(path)
    for c in ('saved', 'eight', 'none', 'read', 'loop', 'leaf'): E.cover(c)
    E.check('magic, version and header size', (n.magic, n.version, n.headersize) == (d['magic'], d['version'], d['headersize']))
    E.check('the header fields are the same, in order', list(n.meta.items()) == list(d['meta'].items()), str((n.meta, d['meta'])))
    E.check('the variables are the same, in order', [(k, type(v), v) for k, v in n.map_vars.items()] == [(k, type(v), v) for k, v in d['vars'].items()])
    E.check('the texture list is the same', list(n.texmru) == d['mru'])
    E.check('as many entities', len(n.ents) == len(d['ents']))
    for e, (t, attrs, links, res, p) in zip(n.ents, d['ents']):
        E.check('the same type', e.type.name == t)
        E.check('the same position', [e.o.x, e.o.y, e.o.z] == p)
        E.check('the same attributes', [a.value if isinstance(a, WeaponType) else a for a in e.attrs] == attrs)
        E.check('the same links and reserved bytes', (list(e.links), list(e.reserved)) == (links, res))
    E.check('the slot changes are the same', list(n.chg) == d['chg'])
    E.check('the slots are numbered in order', [v.b for v in n.vslots] == list(range(-sum(d['chg']))))
    def walk(cubes, t):
        E.check('eight cubes in order', len(cubes) == 8)
        for c, (q, ch) in zip(cubes, t):
            E.cover(q.kind)
            q.same(c)
            if ch is None: E.check('no children are read', not c.children)
            else:
                E.cover('children')
                walk(c.children, ch)
    walk(n.world, d['tree'])


@CONTRACTS('the cubes the package makes can be saved', functions=[R + 'objects.cube.' + f for f in ('newtexcube', 'texturize', 'newcube', 'newcubes', 'setfaces', '__init__')] + [R + 'objects.SurfaceInfo.__init__', R + 'Map._savec'],
           cover=['solid', 'empty'])
def c_made(E):
    """a textured or an empty cube made by the package, saved as any other; the reader accepts what is written (its contract: the fields of a cube are read)"""
    from redeclipse.objects import cube
    how = E.choice('made', ['one texture', 'six textures', 'textured afterwards', 'empty', 'one of eight'])
    tex = [E.int('texture%d' % i, 0, 65535) for i in range(6)]
    if how in ('one texture', 'textured afterwards'): tex = tex[:1] * 6
    c = cube.newtexcube(tex=tex[0]) if how == 'one texture' else cube.newtexcube(tex=list(tex)) if how == 'six textures' else cube.texturize(cube.newcube(), tex=tex[0]) if how == 'textured afterwards' else None
    solid = c is not None
    kind = 'solid' if solid else 'empty'
    marks = (LOW['solid'], LOW['normal']) if solid else (LOW['empty'],)
    if not solid: c = cube.newcube() if how == 'empty' else cube.newcubes()[E.choice('which', range(8))]
    E.cover(kind)
    if not E.sym:
        m, want, d = concrete_map(E)
        m.meta['worldsize'] = 512
        m.world = [c] + cube.newcubes()[1:]
        with scratch() as s:
            path = os.path.join(s, 'map.mpz')
            m.write(path)
            n = MapParser().read(path)
        r = n.world[0]
        E.check('the marker says what the cube is', r.octsav & 7 in marks and r.octsav == c.octsav)
        if r.octsav & 7 == LOW['normal']: E.check('a solid cube has full edges', list(r.edges) == [128] * 12)
        if solid: E.check('the textures are those given', list(r.texture) == tex)
        E.check('the other cubes follow', all(x.octsav & 7 == LOW['empty'] for x in n.world[1:]))
        E.check('there are eight cubes', len(n.world) == 8)
        return
    m = Map(*[None] * 10)
    m.pbar_0 = m.pbar_1 = Bar()
    out = stream.Stream()
    m._savec(out, c, indent=1)
    E.check('the marker says what the cube is', isinstance(c.octsav, int) and 0 <= c.octsav <= 255 and c.octsav & 7 in marks)
    want = [('B', c.octsav)] + ([('B', 128)] * 12 if c.octsav & 7 == LOW['normal'] else []) + [('H', t) for t in (tex if solid else [t.value if isinstance(t, TextNum) else t for t in c.texture])]
    if c.octsav & 0x40: want.append(('H', c.material))
    if c.octsav & 0x80: want.append(('B', c.merged))
    if c.octsav & 0x20:
        want += [('B', c.surfmask), ('B', c.totalverts)]
        for i in range(6):
            if c.surfmask >> i & 1:
                s = c.ext.surfaces[i]
                E.check('the surfaces have no vertices', E.And(s.verts == 0, s.numverts & 15 == 0))
                want += [('B', s.lmid[0]), ('B', s.lmid[1]), ('B', 0), ('B', s.numverts)]
    stream.compare(E, out.items, [stream.Tok(*x) for x in want])


@CONTRACTS('the generators save the cubes of their world', functions=[R + 'cli.output'], cover=['saved', 'not asked'])
def c_output(E):
    """cli.output: what is saved is exactly the tree made from the world, whatever extra settings there are"""
    import redeclipse.cli as cli
    from redeclipse.objects import cube
    tree = []
    for i in range(8):
        c = cube.newcube()
        c.octsav = E.choice('marker', [0, 1, 2, 35]) if i == 0 else 1
        c.children = [object()] if c.octsav == 0 else None
        tree.append(c)
    before = [(c, c.octsav, c.children) for c in tree]
    log, text = [], []
    class V:
        def to_octree(s): return tree
    class M:
        cfg_extra = E.choice('extra', [[], ['line 1', 'line 2']])
        world = None
        def write(s, path):
            log.append((path, s.world))
            E.check('the saved cubes are those of the world', s.world is tree and len(tree) == 8 and all(c is a and c.octsav == o and c.children is ch for c, (a, o, ch) in zip(tree, before)))
    class T:
        def emit_conf(s, h, **k): log.append('conf')
        def copy_data(s): pass
    class P: TEXMAN = T()
    class A: magica = graph = None
    args = A()
    class F: name = '/some/where/map.mpz'
    args.mpz_out = E.choice('output', [None, F()])
    class H:
        def __enter__(s): return s
        def __exit__(s, *a): return False
        def write(s, x): text.append(x)
    def op(path, *a, **k):
        E.check('only the configuration is opened', path == '/some/where/map.cfg' and (a and a[0] or k.get('mode')) == 'a')
        E.check('the configuration is extended after it is written', log == ['conf'])
        return H()
    if E.sym: E.eng.opts['open'] = op
    else: E.patch(cli, 'open', op)
    cli.output(V(), M(), None, P(), args)
    if args.mpz_out is None:
        E.cover('not asked')
        E.check('nothing is saved', log == [])
    else:
        E.cover('saved')
        E.check('the map is saved once', [x for x in log if x != 'conf'] == [('/some/where/map.mpz', tree)])
        E.check('the extra lines are in the configuration', ''.join(text) == ''.join(x + '\n' for x in M.cfg_extra))
