from pyvc.hapi import Registry
from hmap import *
import json as _json
from redeclipse.objects import cube
CONTRACTS = Registry()
R = 'redeclipse.'
NAMES = {'ET_LIGHT': 'radius red green blue flare flarescale', 'ET_MAPMODEL': 'type yaw pitch roll blend scale flags colour palette palindex spinyaw spinpitch spinroll',
         'ET_PLAYERSTART': 'team yaw pitch modes muts id', 'ET_SUNLIGHT': 'yaw pitch red green blue offset flare flarescale', 'ET_WEAPON': 'type flags modes muts id',
         'ET_PUSHER': 'yaw pitch force maxrad minrad type', 'ET_AFFINITY': 'team yaw pitch modes muts id'}
SLOT = dict(slot=None, index=None, changed=None, params={}, linked=False, scale=1, rotation=0, layer=0, palette=0, palindex=0, alphafront=0.5, alphaback=0.0, glowcolor=None, coastscale=1)


def plain(x):
    """what the JSON encoder accepts and represents faithfully (arrays may be lists, tuples or generators)"""
    if SYM:
        if isinstance(x, stream.SText): return True
        if isinstance(x, stream.SBytes): return False
        if isinstance(x, (core.Num, core.OpF, core.SymBool, Obj)): return True
    if x is None or type(x) in (bool, int, float, str): return True
    if isinstance(x, dict): return all(isinstance(k, str) and plain(v) for k, v in x.items())
    return isinstance(x, (list, tuple)) and all(plain(y) for y in x)


def decoded(x):
    """the value as it comes back from the text: arrays are new lists, objects new dictionaries"""
    if isinstance(x, dict): return {k: decoded(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and not (SYM and isinstance(x, rt.TList) and x.symbolic()): return (rt.TList if SYM else list)([decoded(y) for y in x])
    return x


def says(E, d, want, what):
    """obligations: the object d states all of want, and nothing the encoder would refuse"""
    E.check(what + ' is an object', isinstance(d, dict))
    for k, v in want.items():
        E.check('%s states its fields' % what, k in d, k)
        E.check('%s states its fields' % what, E.Eq(decoded(d[k]) if isinstance(v, list) else d[k], rt.TList(v) if SYM and isinstance(v, list) else v), k)
    E.check(what + ' can be encoded', all(k in want or plain(v) for k, v in d.items()) and all(isinstance(k, str) for k in d))


def text_of(b): return b.decode('utf-8', 'surrogateescape') if isinstance(b, bytes) or SYM and isinstance(b, stream.SBytes) and not isinstance(b, stream.SText) else b


if SYM:
    class Obj(rt.SubstProto):
        """the k-th object of some list; its dump is the k-th dump"""
        def __init__(s, tag, k): s.tag, s.k = tag, k
        def vc_subst(s, pairs, memo): return Obj(s.tag, rt.subst_obj(s.k, pairs, memo))
        def vc_eq(s, o): return isinstance(o, Obj) and core.and_(s.tag == o.tag, s.k == o.k)
        __eq__ = vc_eq
        __hash__ = None
        def to_dict(s, *a, **k):
            if a or k: raise core.Unsupported('dumped in another way')
            return Obj('dump of ' + s.tag, s.k)
        def __getattr__(s, k):
            if k.startswith('__') or k == 'vc_class': raise AttributeError(k)
            raise core.Unsupported('%s of %s' % (k, s.tag))


def listed(E, x): return x if isinstance(x, rt.SeqBase) else rt.TList(list(x)) if isinstance(x, (list, tuple)) else shims.s_list(x)


@CONTRACTS('the dump of a map', functions=[R + 'Map.to_dict'], cover=['dumped'], opts={'ordered': True})
def c_map(E):
    """Map.to_dict on an arbitrary map: entities, cubes and slots by the contracts below"""
    if not E.sym: return concrete_dump(E)
    W = World(E)
    part = E.choice('part', ['header', 'map_vars', 'texmru', 'entities', 'world', 'vslots', 'chg'])
    magic = E.choice('magic', [b'MAPZ', b'BFGZ'])
    gi = stream.SBytes(z3.Int('game identifier'), 3)
    world = [Obj('cube', i) for i in range(8)]
    m = W.map(magic, W.meta, world, gi)
    nslots = E.int('slots', 0, N)
    m.ents = seq(W.nents, lambda k: Obj('entity', k))
    m.vslots = seq(nslots, lambda k: Obj('slot', k))
    d = m.to_dict()
    E.cover('dumped')
    E.check('the dump is an object', isinstance(d, dict) and all(isinstance(k, str) for k in d))
    for k in ('magic', 'version', 'headersize', 'meta', 'map_vars', 'texmru', 'entities', 'world', 'vslots', 'chg'): E.check('the dump has all sections', k in d, k)
    E.check('the dump can be encoded', all(plain(v) for k, v in d.items() if k not in ('meta', 'map_vars', 'texmru', 'entities', 'world', 'vslots', 'chg')))
    if part == 'header':
        E.check('magic, version and header size', E.And(d['magic'] == magic.decode(), E.Eq(d['version'], W.version), E.Eq(d['headersize'], W.headersize)))
        got = [tuple(x) for x in listed(E, d['meta'])]
        want = [(k, W.meta[k]) for k in META] + [('gameident', text_of(gi)), ('numvars', m.meta['numvars'])]
        E.check('the header fields in order', [a for a, b in got] == [a for a, b in want])
        for (a, v), (_, w) in zip(got, want): E.check('the header fields in order', E.Eq(v, w), a)
        return
    n = {'map_vars': W.nvars, 'texmru': W.nmru, 'entities': W.nents, 'world': 8, 'vslots': nslots, 'chg': W.nchg}[part]
    l = listed(E, d[part])
    E.check('nothing is lost from the ' + part, l.vc_len() == n)
    k = E.int('which', 0, N) if part != 'world' else E.choice('which', list(range(8)))
    E.assume(k < n)
    x = rt.settled(l[k])
    if part == 'map_vars':
        E.check('name and value of every variable', len(x) == 2)
        v = W.vars.value(k)
        E.check('the variables in order', E.Eq(x[0], text_of(W.vars.name(k))))
        E.check('the values of the variables', E.Eq(x[1], text_of(v)))
    else:
        w = {'texmru': W.mru, 'chg': W.chg}.get(part) or (lambda k: Obj('dump of ' + {'entities': 'entity', 'world': 'cube', 'vslots': 'slot'}[part], k))
        E.check('the %s in order' % part, E.Eq(x, w(k)))


MADE = {'PlayerSpawn': ('ET_PLAYERSTART', 1), 'Sunlight': ('ET_SUNLIGHT', 1), 'Light': ('ET_LIGHT', 1), 'Pusher': ('ET_PUSHER', 1), 'TeamFlag': ('ET_AFFINITY', 1),
        'MapModel': ('ET_MAPMODEL', 1), 'Weapon': ('ET_WEAPON', 1), 'Grenade': ('ET_WEAPON', 9), 'Shotgun': ('ET_WEAPON', 3)}


def some_entity(E):
    """(entity, type name, position, attributes, links, reserved): read from a file or made with one of the entity classes"""
    cls = E.choice('class', ['Entity'] + list(MADE))
    res = [E.int('reserved %d' % i, 0, 255) for i in range(3)]
    nl = None if E.sym else E.int('links', 0, 3)
    links = seq(E.int('links', 0, N), lambda j: fn('link', j, *I32)) if E.sym else [E.int('link', *I32) for _ in range(nl)]
    p = [E.grid('p' + a, -2 ** 17, 2 ** 17, 16) for a in 'xyz']
    t = E.choice('type', list(CODE)) if cls == 'Entity' else MADE[cls][0]
    attrs = [E.int('attribute %d' % i, *I32) for i in range(NATTR[t])]
    if t == 'ET_WEAPON': attrs[0] = E.choice('weapon', list(WeaponType)).value
    L = rt.TList if E.sym else list
    given = list(attrs)
    if cls == 'Entity': e = Entity(FineVector(*p), EntType[t], L(attrs), links, L(res))
    else:
        import redeclipse.entities as A, redeclipse.entities.weapon as B, redeclipse.entities.model as C
        c = getattr(A, cls, None) or getattr(B, cls, None) or getattr(C, cls)
        if cls in ('Grenade', 'Shotgun'): e, attrs = c(FineVector(*p), *attrs[1:], links=links, reserved=L(res)), [MADE[cls][1]] + attrs[1:]
        else: e = c(FineVector(*p), *attrs, links=links, reserved=L(res))
    want = dict(position=[e.o.x, e.o.y, e.o.z], type=t, links=links, reserved=res)
    a = dict(zip(NAMES[t].split(), attrs))
    if t == 'ET_WEAPON': a['type'] = WeaponType(attrs[0]).name
    E.cover(cls)
    return e, want, a, attrs


def same_seq(E, a, b, what):
    if not E.sym: return E.check(what, list(a) == list(b))
    E.check(what, shims.s_len(a) == b.vc_len())
    j = E.int('element', 0, N)
    E.assume(j < b.vc_len())
    E.check(what, a[j] == b[j])


@CONTRACTS('the dump of an entity', functions=[R + 'entities.Entity.to_dict'], cover=['Entity'] + list(MADE))
def c_entity(E):
    e, want, attr, attrs = some_entity(E)
    d = e.to_dict()
    links = want.pop('links')
    says(E, {k: v for k, v in d.items() if k not in ('links', 'attr')}, want, 'an entity')
    E.check('an entity states its attributes and links', 'attr' in d and 'links' in d)
    says(E, {k: v for k, v in d['attr'].items() if k != '_order'}, attr, 'the attributes of an entity')
    E.check('the attributes are named in order', list(d['attr'].get('_order', ())) == list(attr))
    same_seq(E, d['links'], links, 'the links in order')


@CONTRACTS('an entity is rebuilt from its dump', functions=[R + 'entities.Entity.' + f for f in ('from_dict', 'to_dict', '__init__')], cover=['Entity'] + list(MADE))
def c_rebuild(E):
    """the entity made from its own dump (arrays and objects decoded from text) is equal to it"""
    e, want, attr, attrs = some_entity(E)
    links = want['links']
    d = e.to_dict()
    if not E.sym: d = _json.loads(_json.dumps(d))
    else: d = dict(decoded({k: v for k, v in d.items() if k != 'links'}), links=links)
    f = Entity.from_dict(d)
    E.check('the same type', f.type == EntType[want['type']])
    E.check('the same position', E.And(*[E.Eq(a, b) for a, b in zip((f.o.x, f.o.y, f.o.z), want['position'])]))
    E.check('the same attributes', len(f.attrs) == len(attrs))
    v = lambda x: x.value if isinstance(x, WeaponType) else x
    E.check('the same attributes', E.And(*[E.Eq(v(a), v(b)) for a, b in zip(f.attrs, attrs)]))
    E.check('the attributes are named in order', list(f.attr_annotations) == list(attr))
    E.check('the same reserved bytes', E.And(len(f.reserved) == 3, *[E.Eq(a, b) for a, b in zip(f.reserved, want['reserved'])]))
    same_seq(E, f.links, links, 'the same links in order')


@CONTRACTS('the dump of a cube', functions=[R + 'objects.cube.to_dict', R + 'objects.cubext.to_dict', R + 'objects.SurfaceInfo.to_dict'], cover=list(LOW))
def c_cube(E):
    """a cube with arbitrary saved fields; its children by this contract"""
    if not E.sym: return concrete_dump(E)
    q = Cube(E)
    c = q.build(0)
    # which of the octants are vacant (the reader never leaves one vacant, the rest of the package may)
    vacant = E.choice('vacant', range(256) if q.flags == 0 else [0, 0x55, 0xFF]) if q.kind == 'children' else 0
    if q.kind == 'children': c.children = [None if vacant >> i & 1 else Obj('cube', i) for i in range(8)]
    else: c.setfaces(E.choice('faces', list(Faces)))
    d = c.to_dict()
    E.cover(q.kind)
    cube_says(E, d, q)
    E.check('the children in order', len(d['children']) == (8 if q.kind == 'children' else 0) and all(len(x) == 0 if vacant >> i & 1 else E.Eq(x, Obj('dump of cube', i)) for i, x in enumerate(d['children'])))
    E.check('the faces of a cube', list(d['faces']) == [f.name for f in c.faces])


def cube_says(E, d, q):
    want = dict(octsav=q.octsav)
    if q.kind != 'children':
        if q.kind == 'normal': want['edges'] = q.edges
        want['texture'] = q.texture
        if q.flags & 0x40: want['material'] = q.material
        if q.flags & 0x80: want['merged'] = q.merged
        if q.flags & 0x20: want.update(surfmask=q.surfmask, totalverts=q.totalverts)
    E.check('a cube states its children, faces and surfaces', all(k in d for k in ('children', 'faces', 'ext')))
    says(E, {k: v for k, v in d.items() if k not in ('ext', 'children')}, want, 'a cube')
    if q.kind != 'children' and q.flags & 0x20:
        x = d['ext']
        E.check('a cube states its surfaces', isinstance(x, dict) and len(x.get('surfaces', ())) == 6)
        says(E, {k: v for k, v in x.items() if k != 'surfaces'}, {}, 'the surfaces')
        for i in range(6):
            s = x['surfaces'][i]
            if not q.surfmask >> i & 1: E.check('no surface is made up', not s)
            else:
                a, b, v, n = q.surfaces[i]
                says(E, s, dict(lmid=[a, b], verts=v, numverts=n), 'a surface')
    else: E.check('no surfaces are made up', plain(d['ext']))


@CONTRACTS('the dump of a slot', functions=[R + 'objects.VSlot.to_dict', R + 'vector.re.ivec2.to_dict', R + 'vector.re.vec2.to_dict', R + 'vector.re.vec3.to_dict'], cover=['dumped'])
def c_slot(E):
    from redeclipse.objects import VSlot
    k = E.int('number', 0, N)
    s = VSlot(None, k)
    d = s.to_dict()
    E.cover('dumped')
    says(E, d, dict(SLOT, a=None, b=k, offset=[0, 0], scroll=[0.0, 0.0], colorscale=[1.0, 1.0, 1.0]), 'a slot')


@CONTRACTS('the entities of a map are rebuilt', functions=[R + 'Map.from_dict'], cover=['rebuilt'])
def c_from(E):
    """Map.from_dict on an arbitrary dump: the entities by the contract above, in order"""
    if not E.sym: return concrete_dump(E)
    from redeclipse.objects import VSlot
    E.eng.opts['odict'] = stream.Ordered
    n, ns = E.int('entities', 0, N), E.int('slots', 0, N)
    seen = []
    def rebuild(tag):
        def f(d):
            if not isinstance(d, Obj) or d.tag != 'dump of ' + tag: raise core.Unsupported('rebuilt in another way')
            return Obj(tag + ' again', d.k)
        return staticmethod(f)
    E.patch(Entity, 'from_dict', rebuild('entity'))
    E.patch(VSlot, 'from_dict', rebuild('slot'))
    nv = E.choice('variables', [0, 1, 3])
    d = {'magic': 'MAPZ', 'version': E.int('version', *I32), 'headersize': E.int('headersize', *I32), 'meta': [['worldsize', E.int('worldsize', *I32)], ['gameident', 'fps']],
         'map_vars': [['v%d' % i, [E.int('v', *I32), 'text', 0.5][i]] for i in range(nv)], 'texmru': rt.TList(), 'entities': seq(n, lambda k: Obj('dump of entity', k)),
         'world': [], 'vslots': seq(ns, lambda k: Obj('dump of slot', k)), 'chg': rt.TList()}
    m = Map.from_dict(d)
    E.cover('rebuilt')
    l = listed(E, m.ents)
    E.check('as many entities', l.vc_len() == n)
    k = E.int('which', 0, N)
    E.assume(k < n)
    E.check('the entities are rebuilt in order', E.Eq(rt.settled(l[k]), Obj('entity again', k)))


@CONTRACTS('the JSON text', functions=[R + 'Map.to_json', R + 'cli.to_json.main'], cover=['json', 'whole', 'section'])
def c_text(E):
    """what is encoded is the dump, with generators as arrays; the encoder by contract (plain values are represented faithfully)"""
    if not E.sym: return concrete_dump(E)
    import redeclipse.cli.to_json as cli
    d = {'a': object(), 'entities': object()}
    enc = []
    class J:
        @staticmethod
        def dumps(x, **k):
            if set(k) - {'iterable_as_array'}: raise core.Unsupported('encoded in another way')
            E.check('generators are encoded as arrays', k.get('iterable_as_array') is True)
            enc.append(x)
            return 'text %d' % len(enc)
    class M(Map):
        def __init__(s): pass
        def to_dict(s): return d
    if E.choice('way', ['api', 'cli']) == 'api':
        E.patch(redeclipse, 'json', J)
        r = M().to_json()
        if not enc: raise core.Unsupported('encoded in another way')
        E.cover('json')
        return E.check('the text is the encoded dump', len(enc) == 1 and enc[0] is d and r == 'text 1')
    sec = E.choice('section', [None, 'entities'])
    class A: section, input = sec, '/some/where/in.mpz'
    class P:
        def __init__(s, *a, **k): pass
        def add_argument(s, *a, **k): pass
        def parse_args(s, *a): return A
    class AP: ArgumentParser = P
    out, read = [], []
    class O:
        def write(s, x): out.append(x)
        def flush(s): pass
    class S: stdout = O()
    E.patch(cli, 'argparse', AP)
    E.patch(cli, 'json', J)
    E.patch(cli, 'sys', S)
    def parse(p):
        read.append(p)
        return M()
    E.patch(cli, 'parse', parse)
    cli.main()
    if not enc or not out: raise core.Unsupported('printed in another way')
    E.cover('section' if sec else 'whole')
    E.check('the map is read from the file', read == ['/some/where/in.mpz'])
    E.check('the text is the encoded dump', len(enc) == 1 and enc[0] is (d[sec] if sec else d) and ''.join(out) == 'text 1')


def concrete_dump(E):
    """a map is saved, read, changed and dumped to JSON text; the decoded text is compared with the map"""
    import contextlib, io
    m, _, desc = concrete_map(E)
    with scratch() as s:
        path = os.path.join(s, 'map.mpz')
        m.write(path)
        m = MapParser().read(path)
        extra = [some_entity(E) for _ in range(E.choice('added', [0, 0, 1, 2]))]
        m.ents += [x[0] for x in extra]
        way = E.choice('way', ['api', 'cli', 'section'])
        text = m.to_json()
        d = _json.loads(text)
        if way != 'api' and not extra:
            import redeclipse.cli.to_json as cli
            sec = E.choice('section', ['meta', 'map_vars', 'entities', 'world', 'vslots', 'chg']) if way == 'section' else None
            old, out = sys.argv, io.StringIO()
            sys.argv = ['to_json', path] + (['--section', sec] if sec else [])
            try:
                with contextlib.redirect_stdout(out): cli.main()
            finally: sys.argv = old
            def strip(x): return {k: strip(v) for k, v in x.items() if k != '_id'} if isinstance(x, dict) else [strip(y) for y in x] if isinstance(x, list) else x
            E.check('the program prints the dump', strip(_json.loads(out.getvalue())) == strip(d[sec] if sec else d))
    for c in ('dumped', 'rebuilt', 'json', 'whole', 'section'): E.cover(c)
    E.check('magic, version and header size', (d['magic'], d['version'], d['headersize']) == (desc['magic'].decode(), desc['version'], desc['headersize']))
    E.check('the header fields in order', d['meta'] == [[k, text_of(v)] for k, v in desc['meta'].items()], '%r %r' % (d['meta'], desc['meta']))
    E.check('the variables in order', d['map_vars'] == [[text_of(k), text_of(v)] for k, v in desc['vars'].items()], '%r %r' % (d['map_vars'], desc['vars']))
    E.check('the textures in order', d['texmru'] == desc['mru'])
    E.check('the slot changes in order', d['chg'] == desc['chg'])
    E.check('as many entities', len(d['entities']) == len(desc['ents']) + len(extra))
    for e, (t, attrs, links, res, p) in zip(d['entities'], desc['ents']):
        a = dict(zip(NAMES[t].split(), attrs))
        if t == 'ET_WEAPON': a['type'] = WeaponType(a['type']).name
        E.check('the entities in order', {k: e[k] for k in ('type', 'position', 'links', 'reserved')} == dict(type=t, position=p, links=links, reserved=res))
        E.check('the attributes of the entities', e['attr'] == dict(a, _order=list(a)))
    for e, (_, want, a, _) in zip(d['entities'][len(desc['ents']):], extra):
        E.check('the added entities', {k: e[k] for k in want} == want and e['attr'] == dict(a, _order=list(a)))
    E.check('as many slots', [v['b'] for v in d['vslots']] == list(range(-sum(desc['chg']))))
    for v in d['vslots']: says(E, v, dict(SLOT, a=None, offset=[0, 0], scroll=[0.0, 0.0], colorscale=[1.0, 1.0, 1.0]), 'a slot')
    def walk(cubes, t):
        E.check('eight cubes in order', len(cubes) == 8)
        for c, (q, ch) in zip(cubes, t):
            E.cover(q.kind)
            cube_says(E, c, q)
            if ch is None: E.check('no children are made up', c['children'] == [])
            else: walk(c['children'], ch)
    walk(d['world'], desc['tree'])
    c, vacant = cube.newcube(), E.choice('vacant', [0, 1, 2, 4, 8, 16, 32, 64, 128, 0x55, 0xAA, 0xFE, 0xFF])
    c.children = [None if vacant >> i & 1 else cube.newtexcube(tex=100 + i) for i in range(8)]
    x = c.to_dict()['children']
    E.check('the children in order', len(x) == 8 and all(not y if vacant >> i & 1 else y and y['texture'] == [100 + i] * 6 for i, y in enumerate(x)))
    n = Map.from_dict(d)
    E.check('as many entities', len(n.ents) == len(m.ents))
    v = lambda x: x.value if isinstance(x, WeaponType) else x
    for a, b in zip(n.ents, m.ents):
        E.check('the entities are rebuilt', (a.type, [a.o.x, a.o.y, a.o.z], [v(x) for x in a.attrs], list(a.links), list(a.reserved)) == (b.type, [b.o.x, b.o.y, b.o.z], [v(x) for x in b.attrs], list(b.links), list(b.reserved)))
