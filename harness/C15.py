import os, tempfile
from pyvc.hapi import Registry
from hlib import *
from redeclipse import textures as TX
from redeclipse.textures import basetex
CONTRACTS = Registry()
M = 1 << 20
TH = 'redeclipse.textures.'
PLAIN = [TX.TextureManager, TX.MinecraftThemedTextureManager, TX.DefaultThemedTextureManager, TX.PaperThemedTextureManager, TX.PrimaryThemedTextureManager]
COLOUR = [TX.AutomatedMagicaTextureManager, TX.RainbowPukeTextureManager]
CATEGORIES = ['generic', 'column', 'floor', 'wall', 'accent', 'something else', (0.25, 1, 0.5)]
_cache = {}
from redeclipse.textures import minecraft_theme, dull_theme, paper_theme, primary_theme
THEMES = dict(zip(PLAIN[1:], (minecraft_theme, dull_theme, paper_theme, primary_theme)))


class State:
    """an arbitrary state of a texture manager: n registered textures; name -> number and number -> name are inverse to each
    other, and the texture under a number is the one known by its name"""
    def __init__(self, E, cls, texref='any'):
        self.E = E
        m = self.m = cls()
        if not E.sym:
            for i in range(E.int('history', 0, 12)): self.ask(self.some_request('h'))
            self.before = dict(m.atlas_backref)
            self.n = len(m.atlas)
            return
        import z3
        from pyvc import rt, core
        self.z3, self.rt, self.core = z3, rt, core
        I, B = z3.IntSort(), z3.BoolSort()
        n = self.n = E.int('textures so far', 2, M)
        N = core.num(n).z()
        A, W = z3.Function('atlas', I, I), z3.Function('name of', I, I)
        P, V = z3.Function('has name', I, B), z3.Function('number of', I, I)
        RP, R = z3.Function('known', I, B), z3.Function('texture known as', I, I)
        class IntCodec:
            def sorts(s): return [I]
            def enc(s, v): return [core.num(v).z()]
            def dec(s, ts): return core.ENG.atom(ts[0], (0, M), False)
        def d(kind, base, codec=None):
            t = rt.TDict(); t.codec = codec; t.kind = kind; t.sym = True; t.base = base
            return t
        def at(i):      # facts about number i
            core.ENG.define(z3.Implies(z3.And(0 <= i, i < N), z3.And(P(W(i)), V(W(i)) == i)))
        if texref == 'any': known = lambda t: (RP(t), R(t))
        else:
            names = [(rt.keyterms(k)[1][0], core.ENG.intern_id(v)) for k, v in texref.items()]
            def known(t):
                r = z3.IntVal(-1)
                for k, v in names: r = z3.If(t == k, v, r)
                return z3.Or([t == k for k, v in names]), r
        def backref(k):
            t = k[0]
            kp, kv = known(t)
            core.ENG.define(z3.Implies(P(t), z3.And(0 <= V(t), V(t) < N, W(V(t)) == t, kp, kv == A(V(t)))))
            return P(t), [V(t)]
        def atlas(k):
            i = core.ENG.const('halfkey', I)
            core.ENG.define(z3.And(2 * i <= k[0], k[0] <= 2 * i + 1))
            at(i)
            return z3.And(k[0] == 2 * i, 0 <= i, i < N), [A(i)]
        self.at, self.P, self.V, self.W = at, P, V, W
        m.atlas = d('n', atlas)
        m.atlas.base_count = n
        m.atlas_backref = d('s', backref, IntCodec())
        m.atlas_backref.base_count = n
        m.texref = d('s', lambda k: (known(k[0])[0], [known(k[0])[1]])) if texref == 'any' else rt.TDict(texref)
        if texref == 'any': m.texref.kind = 's'

    # requests: a texture name, or a colour triple for the colour managers
    def some_request(self, tag):
        E = self.E
        if isinstance(self.m, tuple(COLOUR)):
            form = E.choice(tag + '.form', ['real', 'int', 'mixed'])
            r = lambda a: E.real(tag + a) if E.sym else E.choice(tag + a, [0.0, 0.5, 1.0, 0.25, 1 / 255, 1e-7, 0.1])
            i = lambda a: E.int(tag + a, 0, 1)
            f = {'real': (r, r, r), 'int': (i, i, i), 'mixed': (r, i, r)}[form]
            return tuple(g('.' + a) for g, a in zip(f, 'rgb'))
        if not E.sym:
            return E.choice(tag + '.name', sorted(self.m.texref) + ['no such texture'])
        return Name(E, tag)

    def ask(self, req):
        if isinstance(req, tuple): return self.E.private(self.m, '_get_colour')(*req) if isinstance(self.m, TX.RainbowPukeTextureManager) else self.m.get_colour(*req)
        try: return self.m.get(req)
        except KeyError: return None


class Name:
    """an arbitrary string"""
    def __init__(self, E, tag):
        import z3
        from pyvc import core
        self.t = z3.Int('string ' + tag)
        E.eng.inputs[tag] = lambda m: 0
    def vc_key(self): return 's', [self.t]
    def vc_eq(self, o):
        from pyvc import rt, core
        return core.SymBool.mk(self.t == rt.keyterms(o)[1][0])
    __hash__ = None


def invariant(E, S, probe):
    """numbers are 0..n-1 without gaps, name <-> number is one to one, the atlas holds the texture of the name"""
    m = S.m
    n = len(m.atlas) if not E.sym else m.atlas.vc_len()
    k = len(m.atlas_backref) if not E.sym else m.atlas_backref.vc_len()
    E.check('as many names as numbers', n == k)
    i = E.int('number', 0, M)
    if not E.sym: i = i % (n + 2)
    E.check('the numbers are 0..n-1', E.Iff(has(m.atlas, i), i < n))
    q = probe
    if has(m.atlas_backref, q):
        E.cover('registered')
        v = m.atlas_backref[q]
        E.check('every name has a number below n', E.And(0 <= v, v < n))
        E.check('the atlas holds the texture of the name under its number', same(E, m.atlas[v], m.texref[q]))


def has(d, k): return d.contains_f(k) if hasattr(d, 'contains_f') else k in d


def same(E, a, b):
    if not E.sym: return a is b
    return E.Eq(a, b)


def equal_requests(E, a, b):
    if isinstance(a, tuple): return E.And(*[E.Eq(x, y) for x, y in zip(a, b)])
    if not E.sym: return a == b
    return E.Eq(a, b)


@CONTRACTS('asking for a texture by name', functions=[TH + 'TextureManager.get'], cover=['known', 'new', 'unknown', 'registered', 'same', 'other'])
def c_get(E):
    cls = E.choice('manager', PLAIN) if not E.sym else TX.TextureManager
    S = State(E, cls)
    a, b = S.some_request('a'), S.some_request('b')
    step(E, S, a, b)


@CONTRACTS('asking for a colour', functions=[TH + 'AutomatedMagicaTextureManager._get_colour', TH + 'AutomatedMagicaTextureManager.get_colour'], cover=['known', 'new', 'registered', 'same', 'other'],
           note='str() of floats is injective (two different floats print differently), the text of a number contains none of the letters around it')
def c_colour(E):
    S = State(E, E.choice('manager', COLOUR))
    a, b = S.some_request('a'), S.some_request('b')
    step(E, S, a, b)


def lookup0(E, S, req):
    """(registered before?, number before)"""
    k = req if not isinstance(req, tuple) else colour_name(E, req)
    d = S.m.atlas_backref
    if has(d, k): return True, d[k]
    return False, None


def colour_name(E, req):
    """the name under which a colour is registered"""
    if not E.sym: return 'c_%s_%s_%s' % tuple(float(c) for c in req)
    from pyvc import shims
    return shims.vc_mod('c_%s_%s_%s', tuple(shims.s_float(c) for c in req))


def step(E, S, a, b):
    m, n = S.m, S.n
    wa, va = lookup0(E, S, a)
    wb, vb = lookup0(E, S, b)
    exists = isinstance(a, tuple) or wa or bool(has(m.texref, a))
    r = S.ask(a)
    E.cover('known' if wa else 'new' if exists else 'unknown')
    if not exists: E.check('an unknown name is refused', r is None)
    elif wa: E.check('the same number again', r == va)
    else: E.check('the next free number', r == n)
    total = (m.atlas.vc_len() if E.sym else len(m.atlas))
    E.check('only a new texture is added', total == (n if wa or not exists else n + 1))
    if exists:
        tex = m.atlas[r]
        if isinstance(a, tuple) and not wa:
            E.check('the texture has the colour asked for', E.And(*[E.Eq(x, y) for x, y in zip((tex.r, tex.g, tex.b), a)]))
            E.check('the texture is a colour texture', type(tex) is basetex.SimpleColourTex)
    invariant(E, S, b if not isinstance(b, tuple) else colour_name(E, b))
    # the same and other requests afterwards
    eq = bool(equal_requests(E, a, b))
    r2 = S.ask(b)
    if eq:
        E.cover('same')
        E.check('an equal request gives the same number', (r2 is None and r is None) if r is None or r2 is None else r2 == r)
    else:
        E.cover('other')
        if wb: E.check('earlier numbers stay', r2 == vb)
        elif r2 is not None and r is not None: E.check('different textures have different numbers', r2 != r)
        if not wb and r2 is not None: E.check('a new texture gets the next number', r2 == total)


@CONTRACTS('textures for a category', functions=[TH + c + '.get_c' for c in ('ThemedTextureManager', 'AutomatedMagicaTextureManager', 'RainbowPukeTextureManager')] + [TH + 'TextureManager.get'], cover=['known'])
def c_category(E):
    """get_c of every manager, for the known and for unknown categories, from an arbitrary state of the manager"""
    E.patch_random()
    cls = E.choice('manager', PLAIN[1:] + COLOUR)
    if cls not in _cache: _cache[cls] = dict(cls().texref)
    S = State(E, cls, texref=dict(_cache[cls]) if cls not in COLOUR else 'any')
    m = S.m
    cat = E.choice('category', CATEGORIES)
    if isinstance(cat, tuple):
        E.assume(cls in COLOUR)
        r = m.get_colour(*cat)
    else: r = m.get_c(cat)
    E.cover('known')
    n2 = m.atlas.vc_len() if E.sym else len(m.atlas)
    E.check('the answer is a number', not isinstance(r, (str, float, bool)) and r is not None)
    E.check('the number of a registered texture', E.And(r >= 0, r < n2))
    E.check('it is in the atlas', has(m.atlas, r))
    E.check('at most one texture is added', E.Or(n2 == S.n, n2 == S.n + 1))
    if cls in COLOUR: return
    names = getattr(THEMES[cls], {'column': 'Column', 'floor': 'Floor', 'wall': 'Wall', 'accent': 'Accent'}.get(cat, 'Generic') + 'Material')
    E.check('the texture is one the theme has for the category', E.Or(*[numbered(E, m, x, r) for x in names]))


def numbered(E, m, name, r):
    """r is the number of the texture of that name"""
    if not E.sym: return m.atlas_backref.get(name) == r
    from pyvc import rt, core
    import z3
    P, V = m.atlas_backref.lookup(rt.keyterms(name))
    return core.SymBool.mk(z3.And(P, V[0] == core.num(r).z()))


class Handle:
    def __init__(self, log): self.log = log
    def __enter__(self): return self
    def __exit__(self, *a): self.log.closed = True; return False
    def write(self, s): self.log.parts.append(s)
    def flush(self): pass
    def close(self): self.log.closed = True


class Log:
    closed = False


@CONTRACTS('the written configuration', functions=[TH + 'TextureManager.emit_conf'], cover=['definition'])
def c_conf(E):
    """one definition per number, in number order, after the heading"""
    class Out: pass
    if not E.sym:
        E.patch_random()
        cls = E.choice('manager', PLAIN + COLOUR)
        m = cls()
        S = State(E, cls); m = S.m
        for i in range(E.int('more', 0, 5)):
            if cls in PLAIN[1:] + COLOUR: m.get_c(E.choice('category', CATEGORIES[:6]))
        with tempfile.TemporaryDirectory() as d:
            o = Out(); o.name = os.path.join(d, 'm.mpz')
            m.emit_conf(o)
            text = open(os.path.join(d, 'm.cfg')).read()
        E.cover('definition')
        lines = text.split('\n')
        E.check('the last line is ended', text.endswith('\n'))
        starts = [l for l in lines if l.startswith('texture c ')]
        E.check('one definition per number', len(starts) == len(m.atlas))
        for i, l in enumerate(starts):
            t = m.atlas[i]
            E.check('the definitions are in number order', '// %d ' % i in l and repr(type(t)) in l, l)
        return
    from pyvc import rt, core, shims
    import z3
    m = TX.TextureManager()
    n = E.int('textures', 0, M)
    ids = rt.newbinders(1)
    class Conf(rt.SubstProto):
        def __init__(s, t, idx): s.t, s.idx = t, idx
        def vc_subst(s, pairs, memo): return Conf(rt.subst_obj(s.t, pairs, memo), rt.subst_obj(s.idx, pairs, memo))
    class Tex(rt.SubstProto):
        def __init__(s, t): s.t = t
        def vc_subst(s, pairs, memo): return Tex(rt.subst_obj(s.t, pairs, memo))
        def conf(s, idx=0, **k): return Conf(s.t, idx)
        def __getattr__(s, k): raise core.Unsupported('attribute %s of a texture' % k)
    N = core.num(n).z()
    def seg(f):
        b = rt.newbinders(1)[0]
        core.ENG.atom_bounds[b.get_id()] = (0, M); core.ENG.atom_keep[b.get_id()] = b
        return rt.Seq([rt.Seg(None, [b], z3.And(b >= 0, b < N), f(core.ENG.atom(b, (0, M), False)), 0, n)])
    class Atlas:
        """insertion order is number order (contract of get)"""
        def items(s): return seg(lambda i: (i, Tex(i)))
        def values(s): return seg(lambda i: Tex(i))
        def keys(s): return seg(lambda i: i)
        def vc_len(s): return n
        def __len__(s): raise core.Unsupported('len')
        def __getitem__(s, i):
            if not (E.And(i >= 0, i < n)): raise KeyError(i)
            return Tex(i)
        def __getattr__(s, k): raise core.Unsupported('atlas.' + k)
    m.atlas = Atlas()
    log = Log()
    log.parts = rt.TList()
    opened = []
    def op(path, *a, **k):
        opened.append((path, a))
        return Handle(log)
    E.eng.opts['open'] = op
    o = Out(); o.name = '/some/where/map.mpz'
    m.emit_conf(o, author='x', map_name='y')
    E.check('written beside the map', len(opened) == 1 and opened[0][0] == '/some/where/map.cfg' and 'w' in opened[0][1] + tuple(opened[0][1]))
    E.check('the file is closed', log.closed)
    segs = log.parts.get_segs()
    head = [x for s in segs[:1] for x in (s.items or [])]
    E.check('the heading comes first and is made of comments', segs[0].items is not None and len(head) <= 1 and
            all(l == '' or l.startswith('//') for h in head for l in h.split('\n')) and all(h.endswith('\n') for h in head))
    rest = rt.Seq([s for s in segs[1:]])
    E.check('one definition per number', rest.vc_len() == n)
    i = E.int('number', 0, M)
    E.assume(i < n)
    if not len(segs) > 1: raise core.Unsupported('no definitions')
    c = rest[i]
    E.cover('definition')
    E.check('the definition with number i is the one of texture i', E.And(type(c).__name__ == 'Conf', c.t == i, c.idx == i))


DIRECTIVES = ('setshader ', 'setshaderparam ', 'texture ', 'texcolor ', 'texscroll ', '//')


@CONTRACTS('the definition of a texture', functions=[TH + 'basetex.' + c + '.conf' for c in ('Sky', 'Default', 'SimpleColourTex', 'SimpleTex', 'DefaultBumpSpecMapWorld', 'DefaultBumpSpecMapParallaxWorld', 'DefaultBumpSpecMapParallaxGlowWorld')],
           cover=['theme', 'colour'])
def c_def(E):
    """the text of every texture of every theme (and colour texture) is one complete definition"""
    cls = E.choice('manager', PLAIN + [TX.AutomatedMagicaTextureManager])
    if cls in PLAIN:
        ref = cls().texref
        name = E.choice('texture', sorted(ref))
        t = ref[name]
        E.cover('theme')
    else:
        m = cls()
        col = [E.choice(c, [0, 1, 0.5, 1 / 3, 1e-9]) for c in 'rgb']
        t = m.atlas[E.private(m, '_get_colour')(*col)]
        E.cover('colour')
    idx = E.choice('number', [0, 1, 2, 77])
    s = t.conf(idx=idx)
    E.check('the text is a string whose last line is ended', isinstance(s, str) and s.endswith('\n'))
    lines = s.split('\n')
    E.check('exactly one texture definition', sum(l.startswith('texture c ') for l in lines) == 1 and sum('texture c ' in l for l in lines) == 1)
    E.check('every line is a directive', all(l == '' or l.startswith(DIRECTIVES) for l in lines), s)
    E.check('the definition comes before its companion layers', [l[8] for l in lines if l.startswith('texture ')][0] == 'c')


SETTINGS = {'SimpleTex': [], 'DefaultBumpSpecMapWorld': ['texcolor'], 'DefaultBumpSpecMapParallaxWorld': ['texcolor', 'specscale', 'parallaxscale'],
            'DefaultBumpSpecMapParallaxGlowWorld': ['texcolor', 'specscale', 'parallaxscale', 'glowcolor']}
IMAGES = {'SimpleTex': 'c', 'DefaultBumpSpecMapWorld': 'cns', 'DefaultBumpSpecMapParallaxWorld': 'cnsz', 'DefaultBumpSpecMapParallaxGlowWorld': 'cnszg'}


@CONTRACTS('the settings of a texture', functions=[TH + 'basetex.' + c + '.conf' for c in SETTINGS], cover=['set', 'unset'])
def c_settings(E):
    """every image and every optional setting of a texture is in its definition, and no other"""
    base = E.choice('kind', list(SETTINGS))
    d = {k: k + '_image.png' for k in IMAGES[base]}
    d['scale'] = E.choice('scale', [1, 2, 0.25])
    for k in SETTINGS[base]:
        d[k] = E.choice(k, [None, (0.5, 0.25, 1) if k == 'texcolor' else (0.125, 0.5, 1, 0)])
        E.cover('unset' if d[k] is None else 'set')
    t = type('Custom', (getattr(basetex, base),), d)()
    lines = [l.strip() for l in t.conf(idx=E.choice('number', [0, 5])).split('\n')]
    at = lambda p: [i for i, l in enumerate(lines) if l.split(' ')[:len(p)] == p]
    first = at(['texture', 'c'])[:1]
    E.check('the definition names its first image', bool(first))
    for k in IMAGES[base]: E.check('every image is named', len(at(['texture', k, '"%s/%s"' % (t.basepath, d[k])])) == 1)
    if base == 'SimpleTex': E.check('the scale is the one given', bool(first) and [float(x) for x in lines[first[0]].split(' ')[3:7]] == [0, 0, 0, d['scale']])
    for k in SETTINGS[base]:
        p = ['texcolor'] if k == 'texcolor' else ['setshaderparam', k]
        got = at(p)
        if d[k] is None: E.check('a setting that is not given is left out', not got)
        else:
            E.check('a setting that is given is written once', len(got) == 1)
            E.check('with its values', bool(got) and [float(x) for x in lines[got[0]].split(' ')[len(p):]] == list(d[k]))
            E.check('parameters come before the images and the colour after them', bool(got) and bool(first) and ((got[0] > first[0]) == (k == 'texcolor')))


OWN = 'hxr/textures'          # the package's own image folder in the game


@CONTRACTS('the images of a texture', functions=[TH + 'basetex.' + c + '.files' for c in ('BaseTex', 'SimpleTex', 'SimpleColourTex', 'BumpSpecMapWorld', 'BumpSpecMapParallaxWorld', 'BumpSpecMapParallaxGlowWorld')],
           cover=['theme', 'colour', 'own'])
def c_images(E):
    """every image a definition names in the package's own folder is one of the texture's files, and every file is named"""
    cls = E.choice('manager', PLAIN + [TX.AutomatedMagicaTextureManager, 'own'])
    if cls == 'own':
        base = E.choice('kind', [k for k in IMAGES if k == 'SimpleTex' or hasattr(basetex, k[7:])])
        d = {k: k + '_image.png' for k in IMAGES[base]}
        d['scale'] = 1
        for k in SETTINGS[base]: d[k] = E.choice(k, [None, (0.5, 0.25, 1) if k == 'texcolor' else (0.125, 0.5, 1, 0)])
        t = type('Custom', (getattr(basetex, base if base == 'SimpleTex' else base[7:]),), d)()
        E.cover('own')
    elif cls in PLAIN:
        ref = cls().texref
        t = ref[E.choice('texture', sorted(ref))]
        E.cover('theme')
    else:
        m = cls()
        t = m.atlas[E.private(m, '_get_colour')(0.5, 0, 1)]
        E.cover('colour')
    named = [l.split('"')[1] for l in t.conf(idx=3).split('\n') if l.startswith('texture ') and l.count('"') >= 2]
    files = list(t.files())
    E.check('every image of the own folder is a file of the texture', all(x[len(OWN) + 1:] in files for x in named if x.startswith(OWN + '/')), '%s %s' % (named, files))
    E.check('every file of the texture is named', all('%s/%s' % (t.basepath, f) in named for f in files), '%s %s' % (named, files))


class FakeOs:
    """the file system seen by copy_data: nothing is touched; a joined path is the tuple of its parts"""
    def __init__(self, E): self.E = E
    @property
    def path(self): return self
    def join(self, *parts): return tuple(y for x in parts for y in (x if isinstance(x, tuple) else [x]))
    def exists(self, p): return False
    isdir = isfile = exists
    def makedirs(self, p, *a, **k): pass
    mkdir = makedirs
    def dirname(self, p): return os.path.dirname(p)
    def realpath(self, p): return os.path.realpath(p)
    abspath = realpath
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        self.E.interface('os.' + k)


class FakeShutil:
    def __init__(self, E, log): self.E = E; self.log = log
    def copy(self, a, b): self.log.append((a, b))
    copyfile = copy2 = copy
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        self.E.interface('shutil.' + k)


def home(): return os.path.dirname(os.path.realpath(TX.__file__))


@CONTRACTS('copying the images', functions=[TH + 'TextureManager.copy_data'], cover=['file'],
           note='os and shutil are stand-ins: the contract is about what is asked of them; the textures are arbitrary (any number of files each)')
def c_copy(E):
    """every file of every texture of the manager is copied from the texture's folder of the package into one folder, under its own name"""
    m = TX.TextureManager()
    if not E.sym:
        class Tex:
            def __init__(s, k, n): s.srcpath, s.names = 'data/kind%d' % k, ['image%d_%d.png' % (k, j) for j in range(n)]
            def files(s): return list(s.names)
        class NoFiles: pass
        kinds = []
        for k in range(E.int('textures', 0, 6)):
            n = E.choice('files', [None, 0, 1, 3])
            kinds.append(NoFiles() if n is None else Tex(k, n))
            m.atlas[len(m.atlas)] = kinds[-1]
        log = []
        E.patch(TX, 'os', FakeOs(E)); E.patch(TX, 'shutil', FakeShutil(E, log))
        m.copy_data()
        whole = lambda p: [x for q in (p if isinstance(p, tuple) else [p]) for x in q.split('/') if x]
        got = [(whole(a), whole(b)) for a, b in log]
        want = [(whole((home(), t.srcpath, f)), f) for t in kinds if isinstance(t, Tex) for f in t.names]
        E.check('every file is copied', all(any(a == x and b[-1] == f for a, b in got) for x, f in want))
        E.check('nothing else is copied', all(any(a == x and b[-1] == f for x, f in want) for a, b in got))
        E.check('all into one folder', len({tuple(b[:-1]) for a, b in got}) <= 1)
        if want: E.cover('file')
        return
    import z3
    from pyvc import rt, core
    I = z3.IntSort()
    NF, FN, SP = z3.Function('files of', I, I), z3.Function('file name', I, I, I), z3.Function('source folder', I, I)
    n = E.int('textures', 0, M)
    def count(i):
        c = core.ENG.atom(NF(core.num(i).z()), (0, M), False)
        core.ENG.fact(z3.And(0 <= c.z(), c.z() <= M), c.z())
        return c
    def seq(count, f):
        b = rt.newbinders(1)[0]
        core.ENG.atom_bounds[b.get_id()] = (0, M); core.ENG.atom_keep[b.get_id()] = b
        t = rt.TList()
        t.segs = [rt.Seg(None, [b], z3.And(b >= 0, b < core.num(count).z()), f(core.ENG.atom(b, (0, M), False)), 0, count)]
        return t
    name = lambda i, j: core.Opaque(FN(core.num(i).z(), core.num(j).z()), 'file')
    folder = lambda i: core.Opaque(SP(core.num(i).z()), 'folder')
    class Tex(rt.SubstProto):
        def __init__(s, i): s.i = i
        def vc_subst(s, pairs, memo): return Tex(rt.subst_obj(s.i, pairs, memo))
        @property
        def srcpath(s): return folder(s.i)
        def files(s): return seq(count(s.i), lambda j: name(s.i, j))
    class Atlas:
        def items(s): return seq(n, lambda i: (i, Tex(i)))
        def values(s): return seq(n, lambda i: Tex(i))
        def keys(s): return seq(n, lambda i: i)
        def vc_len(s): return n
        def __len__(s): raise core.Unsupported('len')
        def __getitem__(s, i):
            if not (E.And(i >= 0, i < n)): raise KeyError(i)
            return Tex(i)
        def __getattr__(s, k): raise core.Unsupported('atlas.' + k)
    m.atlas = Atlas()
    log = rt.TList()
    E.patch(TX, 'os', FakeOs(E)); E.patch(TX, 'shutil', FakeShutil(E, log))
    m.copy_data()
    segs = [s for s in log.get_segs() if s.items is None or s.items]
    if len(segs) != 1 or segs[0].items is not None: raise core.Unsupported('another way of copying')
    ok = lambda x: isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and len(x[0]) == 3 and isinstance(x[1], tuple) and len(x[1]) == 2 and isinstance(x[1][0], str)
    if not ok(segs[0].elem): raise core.Unsupported('another way of forming the paths')
    into = segs[0].elem[1][0]
    def one(x):
        (top, f, q), (dst, q2) = x
        u, v = z3.Ints('iq jq')
        E.check('from the texture folder of the package', top == home())
        E.check('under its own name', E.Eq(q, q2))
        E.check('nothing else is copied', isinstance(f, core.Opaque) and isinstance(q, core.Opaque) and
                core.SymBool.mk(z3.Exists([u, v], z3.And(0 <= u, u < core.num(n).z(), 0 <= v, v < NF(u), SP(u) == f._term, FN(u, v) == q._term))))
    E.all_elements(log, one)
    i, j = E.int('texture', 0, M), E.int('file', 0, M)
    E.assume(E.And(i < n, j < count(i)))
    E.cover('file')
    E.check('every file is copied', E.contains(log, ((home(), folder(i), name(i, j)), (into, name(i, j)))))
