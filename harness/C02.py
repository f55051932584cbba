from pyvc.hapi import Registry
from hmap import *
CONTRACTS = Registry()
R = 'redeclipse.'


@CONTRACTS('a saved map has the documented layout', functions=[R + 'Map.' + f for f in ('write', '_write_custom', '_write_int', '_write_ushort', '_write_float', '_write_str', '_write_ents', '_Map__write_vslots')] +
           [R + 'tb', R + 'entities.Entity.serialize'], cover=['saved'])
def c_write(E):
    """the whole of Map.write on an arbitrary map; the cube tree is one token (contract: the fields of a cube)"""
    if not E.sym: return concrete_write(E)
    W = World(E)
    magic = E.choice('magic', [b'MAPZ', 'MAPZ', b'BFGZ'])
    gi = stream.SBytes(z3.Int('game identifier'), 3) if E.choice('identifier', ['bytes', 'text']) == 'bytes' else stream.SText(z3.Int('game identifier'), 3, 0, 3)
    tree = object()
    m = W.map(magic, W.meta, tree, gi)
    out = stream.Stream()
    opened = []
    def op(path, mode):
        opened.append((path, mode))
        return out
    E.eng.opts['gzip'] = op
    asked = []
    def savechildren(handle, cubes, indent=0):
        asked.append((handle, cubes, indent))
        handle.put([stream.Tok('tree', 0, 1)])
    E.patch(m, '_savechildren', savechildren, must=True)
    m.write('/some/where/out.mpz')
    E.cover('saved')
    E.check('one file is opened for writing', len(opened) == 1 and opened[0] == ('/some/where/out.mpz', 'wb'))
    if not asked: raise core.Unsupported('the tree is saved in another way')
    E.check('the cubes of the map are saved once', len(asked) == 1 and asked[0][0] is out and asked[0][1] is tree)
    E.check('the file is closed', out.closed)
    meta = dict(W.meta, numents=W.nents)
    mg = magic if isinstance(magic, bytes) else magic.encode()
    stream.compare(E, out.items, W.layout(mg, meta, stream.SBytes(z3.Int('game identifier'), 3), [stream.Tok('tree', 0, 1)]))


def concrete_write(E):
    """a map is saved to a real file (after edits of a map already saved once) and the bytes are compared with the documented layout"""
    m, want, d = concrete_map(E)
    with scratch() as s:
        path = os.path.join(s, 'map.mpz')
        edits = E.choice('saved before', [False, True])
        if edits:
            n = len(m.ents)
            extra = E.choice('edit', ['entities', 'variables', 'both'])
            if extra != 'variables': m.ents.append(Entity(FineVector(1, 2, 3), EntType.ET_LIGHT, [1, 2, 3, 4, 5, 6], [], [0, 0, 0]))
            if extra != 'entities': m.map_vars[b'one more variable'] = 1
            m.write(path)
            del m.ents[n:]
            m.map_vars.pop(b'one more variable', None)
        m.write(path)
        with open(path, 'rb') as h: got = gzip.decompress(h.read())
    for q, ch in d['tree']: E.cover(q.kind)
    for c in ('saved', 'eight', 'none'): E.cover(c)
    E.check('the file has the documented layout', got == want, '%r instead of %r' % (got, want))


def tok(items): return [stream.Tok(c, v) for c, v in items]


@CONTRACTS('the fields of a cube', functions=[R + 'Map._savec', R + 'Map._write_char', R + 'Map._write_int_as_chr', R + 'Map._write_custom', R + 'Map._write_ushort'],
           cover=list(LOW))
def c_savec(E):
    """_savec of an arbitrary cube; the children are one token (contract: the cubes of a node)"""
    if not E.sym: return concrete_write(E)
    q = Cube(E)
    c = q.build(E.choice('style', [0, 1]))
    m = Map(*[None] * 10)
    m.pbar_0 = m.pbar_1 = Bar()
    out = stream.Stream()
    asked = []
    def savechildren(handle, arr, indent=0):
        asked.append((handle, arr, indent))
        handle.put([stream.Tok('tree', 0, 1)])
    E.patch(m, '_savechildren', savechildren, must=True)
    ind = E.choice('depth', [0, 1, 5]) if q.kind == 'children' else 1
    m._savec(out, c, indent=ind)
    E.cover(q.kind)
    E.check('only a node with children saves its children', asked == [] if q.kind != 'children' else len(asked) == 1 and asked[0][0] is out and asked[0][1] is c.children)
    want = tok(q.items())
    if q.kind == 'children': want.append(stream.Tok('tree', 0, 1))
    stream.compare(E, out.items, want)


@CONTRACTS('the cubes of a node', functions=[R + 'Map._savechildren'], cover=['eight', 'none'])
def c_savechildren(E):
    """the eight cubes are saved in order"""
    if not E.sym: return concrete_write(E)
    m = Map(*[None] * 10)
    m.pbar_0 = m.pbar_1 = Bar()
    log = []
    def savec(handle, c, indent=0): log.append((handle, c))
    E.patch(m, '_savec', savec, must=True)
    arr = E.choice('cubes', ['eight', 'none'])
    E.cover(arr)
    cubes = [object() for _ in range(8)]
    h = object()
    m._savechildren(h, cubes if arr == 'eight' else E.choice('nothing', [None, []]), indent=E.choice('depth', [0, 1, 5]))
    if arr == 'eight': 
        if not log: raise core.Unsupported('cubes saved in another way')
        E.check('the eight cubes are saved in order', len(log) == 8 and all(a[0] is h and a[1] is b for a, b in zip(log, cubes)))
    else: E.check('nothing is saved', log == [])


@CONTRACTS('attaching a skybox', functions=[R + 'Map.skybox', R + 'tb'], cover=['done'])
def c_skybox(E):
    path = E.choice('path', ['skyboxes/x', b'skyboxes/x', ''])
    class Sky:
        def get_short_path(self): return path
    had = E.choice('variables', ['none', 'others', 'skybox too'])
    mv = {'none': {}, 'others': {b'a': 1, b'b': b'x'}, 'skybox too': {b'a': 1, b'skybox': b'old', b'b': 2.5}}[had]
    m = Map(*[None] * 10)
    m.meta = {'worldsize': 5, 'gameident': b'fps'}
    m.map_vars = mv
    before = dict(mv)
    m.skybox(Sky())
    E.cover('done')
    E.check('the header is left alone', dict(m.meta) == {'worldsize': 5, 'gameident': b'fps'})
    want = path if isinstance(path, bytes) else path.encode()
    now = dict(m.map_vars)
    E.check('the skybox is a map variable', now.get(b'skybox') == want)
    E.check('the other variables are left alone', {k: v for k, v in now.items() if k != b'skybox'} == {k: v for k, v in before.items() if k != b'skybox'})
