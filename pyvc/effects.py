"""Effect contracts: a function depends on its inputs, the package's own state and the seeded random stream only.

Every source a Python program has for anything else yields a symbol marked `nd!` (or text marked NDTXT): clock, process, host,
environment, directory order, object addresses, hashes of text, unseeded generators; iterating a set whose elements hash by text or
by address is refuted where it happens.  The obligation of an effect contract: on no path a branch, a checked result, the seed of
the stream or anything in the state reachable from the contract or the package mentions such a mark."""
import builtins, sys, types
import z3
from . import core

ND = 'nd!'
NDTXT = '\0nd!'
IMPORT = []           # sources consulted while the package was imported (no engine yet)

# module -> functions whose result is no function of their arguments
SOURCES = {
    'time': None,
    'os': ['urandom', 'getpid', 'getppid', 'getcwd', 'getcwdb', 'listdir', 'scandir', 'walk', 'getenv', 'environ', 'environb', 'times', 'getlogin', 'uname',
           'cpu_count', 'getrandom', 'stat', 'getuid', 'getgid', 'getloadavg', 'get_terminal_size'],
    'uuid': ['uuid1', 'uuid4', 'getnode'],
    'secrets': None, 'platform': None, 'socket': None, 'getpass': None, 'tempfile': None, 'glob': None, 'locale': None, 'threading': None,
    'multiprocessing': None, 'resource': None, 'gc': None,
}
PURE = {'time': ['sleep', 'struct_time', 'strftime', 'strptime', 'mktime'], 'threading': ['Lock', 'RLock', 'local'], 'gc': ['collect', 'enable', 'disable']}


def engine(): return core.ENG


def source(what):
    """a value that is no function of the inputs"""
    E = core.ENG
    if E is None:
        IMPORT.append(what)
        return None
    h = E.opts.get('effects')
    if h: h.born.append(what)
    return core.OpF(E.const(ND + what, z3.RealSort()))


def ident(x, what):
    """address or hash of x: unknown, the same for the same object"""
    E = core.ENG
    if E is None:
        IMPORT.append(what); return None
    h = E.opts.get('effects')
    if h: h.born.append(what)
    return E.atom(z3.Function(ND + what, z3.IntSort(), z3.IntSort())(E.intern_id(x)), (None, None), False)


class Src:
    """function or object of a nondeterministic module"""
    def __init__(self, name): self.__dict__['name'] = name
    def __call__(self, *a, **k): return source(self.name)
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return Src(self.name + '.' + k)
    def get(self, *a): return source(self.name)
    def __getitem__(self, k): return source(self.name)
    def __iter__(self): source(self.name); raise core.Unsupported('iteration over %s' % self.name)
    def __contains__(self, k): source(self.name); raise core.Unsupported('membership in %s' % self.name)


def module(name, Mod):
    """stand-in for a module with nondeterministic functions, or None"""
    root = name.split('.')[0]
    if root == 'datetime':
        import datetime
        m = Mod('datetime')
        for k in dir(datetime): setattr(m, k, getattr(datetime, k))
        for c in ('datetime', 'date'):
            base = getattr(datetime, c)
            ns = {f: staticmethod(Src('datetime.%s.%s' % (c, f))) for f in ('now', 'utcnow', 'today')}
            setattr(m, c, type(c, (base,), ns))
        return m
    if root not in SOURCES: return None
    real = builtins.__import__(root)
    m = Mod(root)
    for k in dir(real):
        if not k.startswith('__'): setattr(m, k, getattr(real, k))
    ks = SOURCES[root]
    for k in dir(real):
        if k.startswith('_') or k in PURE.get(root, ()): continue
        v = getattr(real, k)
        if isinstance(v, types.ModuleType): continue
        if ks is None and (isinstance(v, type) and issubclass(v, BaseException) or isinstance(v, (int, str))): continue
        if ks is None or k in ks: setattr(m, k, Src('%s.%s' % (root, k)))
    return m


def mentions_expr(e, memo):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in memo: continue
        memo[i] = x
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(ND): return x.decl().name()
            st.extend(x.children())
    return None


SKIP = (types.ModuleType, types.BuiltinFunctionType, type(None), bool, int, float, bytes, range, z3.FuncDeclRef, z3.SortRef)


class Effects:
    """collector of one contract"""
    def __init__(self, name): self.name = name; self.born = []; self.found = {}
    def reset(self): self.born = []; self.memo = {}
    def fail(self, E, what):
        o = self.obl(E)
        if E.pos < E.l0: return
        if o.status != 'failed':
            o.status = 'failed'; o.detail = what; o.model = {'inputs': {}, 'model': what}
    def obl(self, E):
        n = self.name
        o = E.obls.get(n)
        if o is None: o = E.obls[n] = core.Obl(n)
        return o
    # ---- hooks
    def check(self, E, name, c):
        if self.born:
            w = mentions_expr(c, {})
            if w: self.fail(E, 'checked result %s mentions %s' % (name, w))
    def branch(self, E, e):
        if self.born:
            w = mentions_expr(e, {})
            if w: self.fail(E, 'control flow depends on %s' % w)
    def set_order(self, items):
        for x in items:
            w = unstable(x)
            if w:
                self.born.append('order of a set')
                self.fail(core.ENG, 'iteration order of a set of %s' % w)
                break
        return items
    def seed(self, a):
        E = core.ENG
        if not a or a[0] is None: self.fail(E, 'random.seed() without a seed')
        elif isinstance(a[0], (list, dict)): pass
        else:
            w = self.walk([a[0]])
            if w: self.fail(E, 'random.seed of %s' % w)
    def finish(self, E, roots):
        o = self.obl(E)
        if E.pos < E.l0: return
        o.n += 1; o.backend.add('path')
        if self.born:
            w = self.walk(roots + package_state())
            if w: self.fail(E, 'the outcome mentions %s' % w)
    def walk(self, roots):
        memo, seen, st, n = {}, set(), list(roots), 0
        while st:
            o = st.pop()
            if isinstance(o, str):
                if NDTXT in o: return o.replace('\0', '')
                continue
            if isinstance(o, SKIP): continue
            if id(o) in seen: continue
            seen.add(id(o))
            n += 1
            if n > 400000: raise core.Unsupported('state too large to inspect')
            if isinstance(o, z3.ExprRef):
                w = mentions_expr(o, memo)
                if w: return w
                continue
            if isinstance(o, (core.Engine, z3.AstRef)) or o is self: continue
            if isinstance(o, dict): st.extend(dict.keys(o)); st.extend(dict.values(o))
            elif isinstance(o, (list, tuple, set, frozenset)): st.extend(list(o) if type(o) in (list, tuple, set, frozenset) else [])
            if isinstance(o, types.FunctionType):
                for c in o.__closure__ or ():
                    try: st.append(c.cell_contents)
                    except ValueError: pass
                st.extend(o.__defaults__ or ())
                continue
            if isinstance(o, types.MethodType): st.append(o.__self__); st.append(o.__func__); continue
            if isinstance(o, type):
                if o.__module__.startswith('redeclipse'): st.extend(v for k, v in vars(o).items() if not k.startswith('__'))
                continue
            d = getattr(o, '__dict__', None)
            if isinstance(d, dict): st.extend(d.values())
            for c in type(o).__mro__:
                for k in getattr(c, '__slots__', ()):
                    try: st.append(object.__getattribute__(o, k))
                    except AttributeError: pass
        return None


def package_state():
    out = []
    for n, m in list(sys.modules.items()):
        if n == 'redeclipse' or n.startswith('redeclipse.'):
            out.extend(v for k, v in vars(m).items() if not k.startswith('_'))
    return out


def unstable(x):
    """why the hash of x differs between runs, or None"""
    from . import rt
    if isinstance(x, (str, bytes)): return 'text'
    if x is None or isinstance(x, (bool, int, float, core.Num, core.OpF, core.SymBool)): return None
    if isinstance(x, (tuple, frozenset)):
        for y in x:
            w = unstable(y)
            if w: return w
        return None
    if isinstance(x, rt.Pick):
        ws = [w for w in map(unstable, x.items) if w]
        return ws[0] if ws else None
    if isinstance(x, core.Opaque): return 'objects whose hash is unknown'
    h = type(x).__hash__
    if isinstance(x, type) or h is object.__hash__: return 'objects hashed by address'
    if isinstance(x, rt.VCBase):
        v = h(x)
        if isinstance(v, core.Num) and core.ENG.opts['effects'].walk([v]): return 'objects hashed by text'
        return None
    import enum
    if isinstance(x, enum.Enum): return 'objects hashed by text'
    return None


def run(E, fn, S, name):
    """one path of contract function fn in effect mode"""
    h = E.opts['effects']
    h.reset()
    roots = []
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    def ret(code, off, val):
        roots.extend(sys._getframe(1).f_locals.values())
    try: mon.use_tool_id(tool, 'effects')
    except ValueError: pass
    mon.register_callback(tool, mon.events.PY_RETURN, ret)
    codes = [f.__code__ for f in nested(fn)]
    for c in codes: mon.set_local_events(tool, c, mon.events.PY_RETURN)
    try:
        fn(S)
        h.finish(E, roots)
    except core.Ctl: raise
    except Exception as ex:
        from . import hapi
        if isinstance(ex, hapi.Skip): raise
        if isinstance(ex, (TypeError, AttributeError, NameError, RecursionError)): raise
        # an exception that escapes is the business of the property the contract belongs to
        h.finish(E, [str(ex)])
    finally:
        for c in codes: mon.set_local_events(tool, c, 0)


def nested(fn, depth=3):
    """fn and the functions it closes over (a contract may be a wrapper)"""
    out = [fn]
    if depth:
        for c in fn.__closure__ or ():
            try: v = c.cell_contents
            except ValueError: continue
            if isinstance(v, types.FunctionType): out += nested(v, depth - 1)
    return out
