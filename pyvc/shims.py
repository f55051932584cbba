"""Builtin/module replacements visible to the instrumented code, and the loader."""
import builtins, sys, os, math, operator, importlib, importlib.abc, importlib.machinery, itertools, types
import z3
from . import core, rt, instr, effects
from .core import (Num, Approx, OpF, SymBool, Poison, Opaque, Unsupported, Ctl, and_, or_, not_, bz, num, floor_, int_, round_, with_f)
from .rt import TList, TDict, TSet, Seq, SeqBase, SymRange, Gen, EnumIt, Cell, Seg, vc_for, sym_eq, TDictView, concrete_iterable

SYM = (Num, SymBool, OpF, Approx)


class SymStr:
    """string with symbolic parts: pieces are strings and numbers (only carried around, compared and used as dictionary keys)"""
    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, SymStr): self.parts += p.parts
            elif isinstance(p, str) and self.parts and isinstance(self.parts[-1], str): self.parts[-1] += p
            else: self.parts.append(p)
    def __add__(self, o): return SymStr([self, o])
    def __radd__(self, o): return SymStr([o, self])
    def __repr__(self): return 'SymStr%r' % (self.parts,)
    def __str__(self): return '\0<sym>'
    def vc_key(self):
        """injective encoding: numbers are separated by text that no number contains, str() of numbers is injective per type"""
        E = core.ENG
        tpl, args, rx = [], [], []
        prev = False
        import re
        for p in self.parts:
            if isinstance(p, str):
                tpl.append(p); rx.append(re.escape(p)); prev = False
                if any(c in p for c in '.-+e0123456789') and len(self.parts) > 1: raise Unsupported('string key with digits in its text')
            else:
                if prev or not isinstance(p, (int, float, Num, OpF)) or isinstance(p, bool): raise Unsupported('string key of irregular form')
                fl = isinstance(p, (float, OpF)) or isinstance(p, Num) and p.f
                tpl.append('%f' if fl else '%i'); rx.append('[-+0-9.e]+'); prev = True
                args.append(OpF.of(p).e)
        t = ''.join(tpl)
        E.str_templates[t] = re.compile(''.join(rx))
        for c in E.str_consts: _tplcheck(E, c)
        R, I = z3.RealSort(), z3.IntSort()
        F = z3.Function('str:' + t, *([R] * len(args) + [I]))
        term = F(*args)
        E.fact(z3.And(term < 0, z3.Function('str_tag', I, I)(term) == rt.hash_str(t), *[z3.Function('str_arg%d' % j, I, R)(term) == a for j, a in enumerate(args)]), term)
        return 's', [term]
    def vc_eq(self, o):
        if not isinstance(o, (str, SymStr)): return False
        a, b = rt.keyterms(self), rt.keyterms(o)
        return SymBool.mk(a[1][0] == b[1][0])
    def __eq__(self, o): raise Unsupported('comparison of symbolic string')
    __hash__ = None
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported('str.%s on symbolic string' % k)


def _tplcheck(E, c):
    for r in E.str_templates.values():
        if r.fullmatch(c): raise Unsupported('constant string %r may equal a formatted one' % c)


def fmt_pieces(f, args):
    """pieces of f % args for the conversions %s and %d of numbers and strings, or None"""
    import re
    out, i, n = [], 0, 0
    for m in re.finditer(r'%(.)', f):
        out.append(f[i:m.start()]); i = m.end()
        c = m.group(1)
        if c == '%': out.append('%'); continue
        if c not in 'sd' or n >= len(args): return None
        x = args[n]; n += 1
        if c == 'd' and not (isinstance(x, int) or isinstance(x, Num) and not x.f): return None
        if isinstance(x, SymBool) or isinstance(x, bool): return None
        out.append(x if isinstance(x, (str, SymStr, Num, OpF, int, float)) else str(x))
    if n != len(args): return None
    out.append(f[i:])
    return [p for p in out if not (isinstance(p, str) and p == '')]


# ------------------------------------------------------------------ builtins

def s_range(*a):
    if not any(isinstance(x, SYM) for x in a): return builtins.range(*a)
    lo, hi, st = 0, None, 1
    if len(a) == 1: hi, = a
    elif len(a) == 2: lo, hi = a
    else: lo, hi, st = a
    for v in (lo, hi, st):
        if isinstance(v, float) or isinstance(v, (OpF, Approx)) or (isinstance(v, Num) and v.f):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(st, Num): raise Unsupported('symbolic range step')
    if isinstance(lo, Num) or isinstance(hi, Num):
        d = hi - lo if st == 1 else None
        if isinstance(d, int) and d <= min(64, core.ENG.opts.get('generic_range', 64)):       # constant trip count: unrolled exactly
            return TList([lo + i for i in builtins.range(d)])
    return SymRange(lo, hi, st)


def s_len(x):
    if hasattr(x, 'vc_len'): return x.vc_len()
    if isinstance(x, Gen): raise TypeError("object of type 'generator' has no len()")
    return builtins.len(x)


PYT = {}       # shim -> real type


def pytype(x):
    if isinstance(x, Num): return float if x.f else int
    if isinstance(x, SymBool): return bool
    if isinstance(x, (OpF, Approx)): return float
    if isinstance(x, SymStr): return str
    if isinstance(x, TList): return list
    if isinstance(x, TSet): return set
    if isinstance(x, TDict): return dict
    c = getattr(x, 'vc_class', None) if not isinstance(x, (rt.VCBase, type)) else None
    if c is not None: return c
    if isinstance(x, Opaque): raise Unsupported('type of an arbitrary object')
    return builtins.type(x)


def _realt(t):
    if isinstance(t, tuple): return tuple(_realt(x) for x in t)
    try: return PYT.get(t, t)
    except TypeError: return t


def s_isinstance(x, t):
    t = _realt(t)
    if isinstance(x, Poison): x._u()
    if isinstance(x, Opaque) and 'vc_class' not in x._at: 
        raise Unsupported('isinstance of an arbitrary object')
    c = pytype(x) if not isinstance(x, Opaque) else x._at['vc_class']
    return issubclass(c, t)


def s_type(*a):
    if len(a) != 1: return builtins.type(*a)
    return pytype(a[0])


def s_int(*a):
    if not a: return 0
    if isinstance(a[0], SYM): return int_(a[0])
    if hasattr(a[0], 'vc_int'): return a[0].vc_int()
    return builtins.int(*a)


def s_float(*a):
    if not a: return 0.0
    x = a[0]
    if isinstance(x, SymBool): x = x.num()
    if isinstance(x, Num):
        m = x.mag()
        if m is None or m >= 2 ** 53: raise Unsupported('float() of unbounded int')
        return with_f(x, True)
    if isinstance(x, (OpF, Approx)): return x
    return builtins.float(*a)


def s_bool(*a):
    if a and isinstance(a[0], SymBool): return a[0]
    if a and isinstance(a[0], Num): return not_(a[0] == 0)
    return builtins.bool(*a)


def s_str(*a, **k):
    if a and isinstance(a[0], SYM + (SymStr,)): return SymStr([a[0]])
    return builtins.str(*a, **k)


def _items(a):
    if len(a) == 1: a = a[0]
    if isinstance(a, Gen): a = a.tolist()
    if isinstance(a, rt.SeqBase) and not isinstance(a, TList):
        a = TList(a)
    return list(a)


def s_min(*a, **k):
    return _mm(a, k, lambda x, y: x < y, builtins.min)
def s_max(*a, **k):
    return _mm(a, k, lambda x, y: x > y, builtins.max)


def _mm(a, k, lt, real):
    if len(a) == 1 and isinstance(a[0], TList) and a[0].symbolic() or len(a) == 1 and isinstance(a[0], SeqBase) and not isinstance(a[0], TList):
        return _symmm(a[0], k, lt)
    it = _items(a)
    if not it:
        if 'default' in k: return k['default']
        raise ValueError('min()/max() arg is an empty sequence')
    key = k.get('key')
    best = it[0]
    for x in it[1:]:
        if key is not None:
            if builtins.bool(lt(key(x), key(best))): best = x
            continue
        c = lt(x, best)
        if isinstance(c, SymBool):
            nx, nb = num(x), num(best)
            if isinstance(nx, Num) and isinstance(nb, Num) and nx.isint() and nb.isint() and nx.f == nb.f:
                best = core.ite_num(c, x, best); continue
        if builtins.bool(c): best = x
    return best


def _symmm(seq, k, lt):
    """min/max of a symbolic numeric sequence: a fresh value characterised by its definition"""
    E = core.ENG
    if k.get('key') is not None: raise Unsupported('min/max with key over a symbolic sequence')
    if not isinstance(seq, TList): seq = TList(seq)
    if not builtins.bool(seq.vc_len() != 0):
        if 'default' in k: return k['default']
        raise ValueError('min()/max() arg is an empty sequence')
    w = rt.some_element(seq)
    for s in seq.get_segs():
        if s.items is not None:
            for x in s.items: E.assume(not_(lt(x, w)))
        else: E.assume(z3.ForAll(s.binders, z3.Implies(s.guard, bz(not_(lt(s.elem, w))))))
    return w


def s_sum(it, start=0):
    if isinstance(it, Gen): it = it.tolist()
    if not concrete_iterable(it) and not isinstance(it, TList): it = TList(it)
    if isinstance(it, TList) and it.symbolic():
        if any(_isopf(x) for s in it.get_segs() for x in (s.items if s.items is not None else [s.elem])): return _float_sum(it, start)
        c = Cell(start)
        def add(v): rt.setattr_(c, 'v', c.v + v)
        vc_for(it, add, None)
        return c.v
    it = list(it)
    if any(_isopf(x) for x in it): return _float_sum(TList(it), start)
    r = start
    for x in it: r = r + x
    return r


def _isopf(x): return isinstance(x, OpF)


def _float_sum(t, start):
    """sum() of floats uses compensated summation: only its sign is known"""
    if not isinstance(start, int) or start != 0: raise Unsupported('sum of floats with a start value')
    E = core.ENG
    r = E.const('sum', z3.RealSort())
    nonneg, zero, pos = [], [], []
    for s in t.get_segs():
        if s.items is not None:
            for x in s.items:
                e = OpF.of(x).e
                nonneg.append(e >= 0); zero.append(e == 0); pos.append(e > 0)
        else:
            e = OpF.of(s.elem).e
            nonneg.append(z3.ForAll(s.binders, z3.Implies(s.guard, e >= 0)))
            zero.append(z3.ForAll(s.binders, z3.Implies(s.guard, e == 0)))
            pos.append(z3.Exists(s.binders, z3.And(s.guard, e > 0)))
    E.define(z3.Implies(z3.And(nonneg), r >= 0))
    E.define(z3.Implies(z3.And(zero), r == 0))
    E.define(z3.Implies(z3.And(z3.And(nonneg), z3.Or(pos)), r > 0))
    return OpF(r)


def s_abs(x): return abs(x)
def s_round(x, nd=None):
    if isinstance(x, SYM): return round_(x, nd)
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def _allany(it, isall):
    if isinstance(it, Gen): it = it.tolist()
    if isinstance(it, TList): segs = it.get_segs()
    elif isinstance(it, SeqBase): segs = it.get_segs()
    elif isinstance(it, (list, tuple, set, dict, range)): segs = [Seg(items=list(it))]
    else: segs = [Seg(items=list(it))]
    out = []
    for s in segs:
        if s.items is not None: out += [x if isinstance(x, (SymBool, bool)) else builtins.bool(x) for x in s.items]
        elif isall: out.append(SymBool.mk(core.forall(s.binders, z3.Implies(s.guard, bz(s.elem)))))
        else: out.append(SymBool.mk(core.exists(s.binders, z3.And(s.guard, bz(s.elem)))))
    return and_(*out) if isall else or_(*out)


def s_all(it): return _allany(it, True)
def s_any(it): return _allany(it, False)


def s_enumerate(it, start=0):
    if concrete_iterable(it) and not isinstance(it, Gen): return builtins.enumerate(it, start)
    return EnumIt(it, start)


def s_zip(*its, **k):
    its = [i.tolist() if isinstance(i, Gen) else i for i in its]
    its = [TList(i) if isinstance(i, (TDictView, SymRange, Seq)) else i for i in its]
    if not any(isinstance(i, TList) and i.symbolic() or isinstance(i, EnumIt) for i in its): return builtins.zip(*its)
    segs = []
    for i in its:
        if not isinstance(i, TList): raise Unsupported('zip of symbolic and concrete')
        ss = [s for s in i.segs if s.items is None or s.items]
        if len(ss) != 1 or ss[0].lo is None: raise Unsupported('zip of irregular sequences')
        segs.append(ss[0])
    b, = rt.newbinders(1)
    n = segs[0].count()
    for s in segs[1:]: n = s_min(n, s.count())
    elem = tuple(s.at([(core.ENG.atom(b) + s.lo).z()]) for s in segs)
    return Seq([Seg(None, [b], z3.And(b >= 0, b < num(n).z()), elem, 0, n)])


def s_map(f, *its):
    if len(its) == 1 and (isinstance(its[0], Gen) or not concrete_iterable(its[0])):
        it = its[0]
        return Gen(lambda e: vc_for(it, lambda v: e(f(v)), None))
    return builtins.map(f, *its)


def s_filter(f, it):
    if isinstance(it, Gen) or not concrete_iterable(it):
        return Gen(lambda e: vc_for(it, lambda v: e(v) if (f(v) if f is not None else v) else None, None))
    return builtins.filter(f, it)


def s_sorted(it, key=None, reverse=False):
    if isinstance(it, Gen): it = it.tolist()
    if not concrete_iterable(it) or isinstance(it, TList) and it.symbolic():
        if not isinstance(it, TList): it = TList(it)
        if it.symbolic(): raise Unsupported('sorted() of a symbolic sequence')
    xs = list(dict.keys(it)) if key is None and isinstance(it, TSet) else list(it)
    if not any(isinstance(x, SYM) for x in xs) and key is None:
        try: return TList(builtins.sorted(xs, reverse=reverse))
        except Ctl: raise
    return TList(builtins.sorted(xs, key=key, reverse=reverse))


def s_reversed(it):
    if isinstance(it, TList) and it.symbolic() or isinstance(it, SeqBase) and not isinstance(it, TList): raise Unsupported('reversed')
    return builtins.reversed(it if isinstance(it, (list, tuple, range)) else list(it))


def s_tuple(it=()):
    if isinstance(it, Gen): it = it.tolist()
    if isinstance(it, SeqBase) and not isinstance(it, TList): it = TList(it)
    if isinstance(it, TList) and it.symbolic(): return it
    return builtins.tuple(it)


def s_list(it=()): return TList(it)
def s_dict(*a, **k): return TDict(*a, **k)
def s_set(it=()): return TSet(it)


def s_next(it, *d):
    if isinstance(it, Gen):
        try: return it.__next__()
        except StopIteration:
            if d: return d[0]
            raise
    return builtins.next(it, *d)


def s_chr(x):
    if isinstance(x, Num):
        e = core.ENG
        hook = e.opts.get('chr')
        if hook: return hook(x)
        raise Unsupported('chr of symbolic')
    return builtins.chr(x)


def s_ord(x):
    if hasattr(x, 'vc_ord'): return x.vc_ord()
    return builtins.ord(x)


def s_print(*a, **k): pass


def s_open(path, *a, **k):
    h = core.ENG.opts.get('open') if core.ENG else None
    if h: return h(path, *a, **k)
    return builtins.open(path, *a, **k)


def s_hash(x):
    if isinstance(x, Num):
        # equal numbers hash equally; hash(int) is used only as an opaque function
        return x if x.isint() else core.ENG.atom(z3.Function('hash_frac', z3.IntSort(), z3.IntSort())(x.z(1024)), (None, None), False)
    if isinstance(x, rt.VCBase) and type(x).__hash__ is not object.__hash__ and type(x).__hash__ is not None: return type(x).__hash__(x)
    if isinstance(x, tuple): 
        hs = [s_hash(y) for y in x]
        if any(isinstance(h, Num) for h in hs):
            f = z3.Function('hash_tuple%d' % len(hs), *([z3.IntSort()] * (len(hs) + 1)))
            return core.ENG.atom(f(*[num(h).z() for h in hs]), (None, None), False)
    if isinstance(x, (str, bytes)) or isinstance(x, rt.VCBase) or isinstance(x, type):
        r = effects.ident(x, 'hash')
        return builtins.hash(x) if r is None else r
    return builtins.hash(x)


def s_id(x):
    r = effects.ident(x, 'id')
    return builtins.id(x) if r is None else r


def s_divmod(a, b): return (a // b, a % b)
def s_pow(a, b, *m): return a ** b if not m else builtins.pow(a, b, *m)


def s_iter(x, *a):
    return builtins.iter(x, *a)


def s_callable(x): return builtins.callable(x)


PYT.update({s_int: int, s_float: float, s_bool: bool, s_str: str, s_tuple: tuple, s_list: list, s_dict: dict, s_set: set, s_type: type,
            TList: list, TDict: dict, TSet: set, s_range: range})

# hooks used by instrumented code ----------------------------------------------------

def vc_cells(names, getters, setter, fid, tonly):
    def g(f):
        def get():
            try: return f()
            except NameError: return rt.UNB
        return get
    return (names, [g(f) for f in getters], setter, fid, frozenset(tonly))


def vc_and(ok, *fs):
    E = core.ENG
    r = fs[0]()
    for i, f in enumerate(fs[1:]):
        if isinstance(r, SymBool):
            acc = [r]
            try:
                for g in fs[i + 1:]:
                    v = g()
                    if not isinstance(v, (SymBool, bool)): raise _NoMerge()
                    acc.append(v)
                return and_(*acc)
            except (_NoMerge, Exception, Unsupported):
                pass
            if not builtins.bool(r): return False
        elif not r: return r
        r = f()
    return r


def vc_or(ok, *fs):
    r = fs[0]()
    for i, f in enumerate(fs[1:]):
        if isinstance(r, SymBool):
            acc = [r]
            try:
                for g in fs[i + 1:]:
                    v = g()
                    if not isinstance(v, (SymBool, bool)): raise _NoMerge()
                    acc.append(v)
                return or_(*acc)
            except (_NoMerge, Exception, Unsupported):
                pass
            if builtins.bool(r): return True
        elif r: return r
        r = f()
    return r


class _NoMerge(Exception): pass


def vc_not(x):
    if isinstance(x, SymBool): return not_(x)
    return not x


def vc_in(x, c):
    if isinstance(c, (TDict,)) and core.ENG is not None: return c.contains_f(x)
    if isinstance(c, TDictView) and c.kind == 'k' and core.ENG is not None: return c.d.contains_f(x)
    if isinstance(c, (TList, Seq)) : return rt.contains(c, x)
    if isinstance(c, TDictView): return rt.contains(c, x)
    if isinstance(c, SymRange): return and_(x >= c.lo, x < c.hi) if c.step == 1 else x in c
    if isinstance(c, (tuple, range)) and rt.is_sym(x) or isinstance(c, tuple) and any(rt.is_sym(y) for y in c):
        if isinstance(c, range):
            if not x.isint(): raise Unsupported('fraction in range')
            if c.step == 1: return and_(x >= c.start, x < c.stop)
        return or_(*[sym_eq(x, y) for y in c])
    if isinstance(c, Gen): return rt.contains(c.tolist(), x)
    return x in c


def vc_mod(a, b):
    if isinstance(a, str):
        bs = b if isinstance(b, tuple) else (b,)
        if any(isinstance(x, SYM + (SymStr, Opaque)) for x in bs):
            ps = fmt_pieces(a, bs)
            return SymStr(ps if ps is not None else [a, None] + list(bs))
        try: return a % b
        except TypeError as ex:
            if 'returned non-string' in str(ex): return SymStr([a, None] + list(bs))
            raise
    return a % b


_IOPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv, 'FloorDiv': operator.ifloordiv,
         'Mod': lambda a, b: vc_mod(a, b), 'BitOr': operator.ior, 'BitAnd': operator.iand, 'BitXor': operator.ixor,
         'LShift': operator.ilshift, 'RShift': operator.irshift, 'Pow': operator.ipow}


def vc_iop(op, a, b): return _IOPS[op](a, b)


def vc_isret(s): return s is not None and s is not rt.BRK


def vc_up(t, n):
    if isinstance(t, Gen): t = t.tolist()
    t = tuple(t)
    if len(t) != n: raise ValueError('unpack')
    return t


def vc_star(x):
    if isinstance(x, Gen): x = x.tolist()
    if isinstance(x, SeqBase) and not isinstance(x, TList): x = TList(x)
    return x


def vc_listcomp(f):
    r = TList(); f(r.append); return r
def vc_setcomp(f):
    r = TSet(); f(r.add); return r
def vc_dictcomp(f):
    r = TDict()
    def e(p): r[p[0]] = p[1]
    f(e)
    return r
def vc_list(x): return TList(x)
def vc_set(x): return TSet(x)
def vc_dict(items): return TDict(items)
def vc_dictcopy(x): return TDict(x)
def vc_yf(it, y): 
    rt.vc_for(it, y, None)


# ------------------------------------------------------------------ modules

class Mod(types.ModuleType):
    pass


def _opaque_math(name, lo=None, hi=None):
    real = getattr(math, name)
    def f(*a):
        if not any(isinstance(x, SYM) for x in a): return real(*a)
        E = core.ENG
        args = [OpF.of(x).e for x in a]
        fn = z3.Function('math_' + name, *([z3.RealSort()] * (len(args) + 1)))
        r = fn(*args)
        if lo is not None: E.define(r >= lo)
        if hi is not None: E.define(r <= hi)
        return OpF(r)
    return f


def make_math():
    m = Mod('math')
    for k in dir(math): setattr(m, k, getattr(math, k))
    for k in ('sin', 'cos'): setattr(m, k, _opaque_math(k, -1, 1))
    for k in ('sqrt', 'exp'): setattr(m, k, _opaque_math(k, 0))
    for k in ('tan', 'log', 'pow', 'hypot', 'atan', 'tanh'): setattr(m, k, _opaque_math(k))
    m.floor = lambda x: floor_(x) if isinstance(x, SYM) else math.floor(x)
    m.ceil = lambda x: core.ceil_(x) if isinstance(x, SYM) else math.ceil(x)
    m.trunc = lambda x: int_(x) if isinstance(x, SYM) else math.trunc(x)
    m.fabs = lambda x: s_float(abs(x))
    def mpow(x, y):
        if not any(isinstance(a, SYM) for a in (x, y)): return math.pow(x, y)
        E = core.ENG
        a, b = OpF.of(x).e, OpF.of(y).e
        r = z3.Function('math_pow', z3.RealSort(), z3.RealSort(), z3.RealSort())(a, b)
        if isinstance(y, (int, float)) and y > 0:
            for f in (z3.Implies(a >= 0, r >= 0), z3.Implies(a == 0, r == 0), z3.Implies(a >= 1, r >= 1), z3.Implies(z3.And(a >= 0, a <= 1), r <= 1)): E.fact(f, r)
        return OpF(r)
    m.pow = mpow
    def atan2(y, x):
        if not isinstance(x, SYM) and not isinstance(y, SYM): return math.atan2(y, x)
        # cardinal vectors only: fork on the sign pattern
        sx = 0 if builtins.bool(x == 0) else (1 if builtins.bool(x > 0) else -1)
        sy = 0 if builtins.bool(y == 0) else (1 if builtins.bool(y > 0) else -1)
        if sx and sy: raise Unsupported('atan2 of a general symbolic vector')
        return math.atan2(sy, sx)      # exact for axis-aligned vectors (depends on the signs only)
    m.atan2 = atan2
    return m


class SymRandom:
    """contract of the random module: every permitted outcome is possible"""
    def random(self): return core.ENG.rand_real('random', 0, 1)
    def uniform(self, a, b):
        E = core.ENG
        r = E.rand_real('uniform', None, None)
        A, B = OpF.of(a).e, OpF.of(b).e
        E.define(z3.And(r.e >= z3.If(A <= B, A, B), r.e <= z3.If(A <= B, B, A)))
        return r
    def randint(self, a, b):
        E = core.ENG
        if isinstance(a, float) or isinstance(b, float): raise TypeError("'float' object cannot be interpreted as an integer")
        if builtins.bool(a > b): raise ValueError('empty range for randrange()')
        e = E.const('randint', z3.IntSort())
        E.define(z3.And(e >= num(a).z(), e <= num(b).z()))
        lo, hi = num(a).bounds()[0], num(b).bounds()[1]
        return E.atom(e, (lo, hi), False)
    def randrange(self, a, b=None, step=1):
        if b is None: a, b = 0, a
        if step != 1: raise Unsupported('randrange step')
        return self.randint(a, b - 1)
    def choice(self, seq):
        E = core.ENG
        if isinstance(seq, range): return self.randrange(seq.start, seq.stop)
        if isinstance(seq, (SeqBase,)) and not isinstance(seq, TList): seq = TList(seq)
        if isinstance(seq, TList) and seq.symbolic():
            if not builtins.bool(seq.vc_len() != 0): raise IndexError('Cannot choose from an empty sequence')
            return rt.some_element(seq)
        n = len(seq)
        if not n: raise IndexError('Cannot choose from an empty sequence')
        h = E.opts.get('choice')
        if h: return h(list(seq))
        i = E.rand_index(n)
        return seq[i]
    def choices(self, *a, **k): raise Unsupported('random.choices')
    def shuffle(self, x):
        E = core.ENG
        if not isinstance(x, TList): raise Unsupported('shuffle')
        if x.symbolic(): return shuffle_sym(x)
        c = x._c()
        x._mut()
        out = []
        rest = list(c)
        while rest:
            out.append(rest.pop(E.rand_index(len(rest))))
        x.segs = [Seg(items=out)]
    def sample(self, pop, k):
        t = TList(pop)
        E = core.ENG
        if E.opts.get('abstract_sample') and not t.symbolic() and isinstance(k, int) and k == len(t._c()) and k > 1:
            # an arbitrary ordering, as a sequence: which element comes at place b is an unknown function of b (that it is a
            # bijection is not used: more outcomes than there are)
            x = TList()
            b, = rt.newbinders(1)
            outer = E.binders()
            f = z3.Function(E.fname('order'), *([o.sort() for o in outer] + [z3.IntSort()] * 2))
            if E.opts['abstract_sample'] == 'complete':     # every element comes somewhere
                at = [f(*(outer + [z3.IntVal(j)])) for j in range(k)]
                for v in range(k): E.fact(z3.Or([a == v for a in at]), at[0])
            x.segs = [Seg(None, [b], z3.And(0 <= b, b < k), rt.Pick(list(t._c()), f(*(outer + [b]))), 0, k)]
            return x
        self.shuffle(t)
        if t.symbolic():
            if core.ENG.entails(bz(k == t.vc_len())): return t
            raise Unsupported('proper sample of a symbolic list')
        return TList(t._c()[:k])
    def seed(self, *a):
        if core.ENG is None: effects.IMPORT.append(('seed', a)); return
        h = core.ENG.opts.get('effects')
        if h: h.seed(a)
    def gauss(self, mu, s): return core.ENG.rand_real('gauss', None, None)
    normalvariate = gauss
    def getrandbits(self, k): return self.randint(0, 2 ** k - 1)
    def Random(self, *a):
        if a and a[0] is not None and not isinstance(a[0], SYM + (SymStr,)): return self
        h = core.ENG.opts.get('effects') if core.ENG is not None else None
        if h: h.seed(a)
        elif core.ENG is None: effects.IMPORT.append(('seed', a))
        return self
    def SystemRandom(self, *a):
        h = core.ENG.opts.get('effects') if core.ENG is not None else None
        if h: h.fail(core.ENG, 'random.SystemRandom')
        elif core.ENG is None: effects.IMPORT.append('random.SystemRandom')
        return self
    def __getattr__(self, k): raise Unsupported('random.%s' % k)


def shuffle_sym(x):
    E = core.ENG
    x._mut()
    ss = [s for s in x.segs if s.items is None or s.items]
    if len(ss) != 1: raise Unsupported('shuffle of an irregular symbolic list')
    s = ss[0]
    if s.lo is None: return        # such a segment has no order
    n = num(s.count()).z()
    nm = E.fname('perm')
    outer = E.binders()
    sorts = [b.sort() for b in outer] + [z3.IntSort(), z3.IntSort()]
    p, q = z3.Function(nm, *sorts), z3.Function(nm + '_inv', *sorts)
    i = z3.Int('i!p')
    E.define(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(*(outer + [i])), p(*(outer + [i])) < n, q(*(outer + [p(*(outer + [i]))])) == i)), patterns=[p(*(outer + [i]))]))
    E.define(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(*(outer + [i])), q(*(outer + [i])) < n, p(*(outer + [q(*(outer + [i]))])) == i)), patterns=[q(*(outer + [i]))]))
    if not outer: E.perms.append((p, q, n))
    b, = rt.newbinders(1)
    lo = num(s.lo).z()
    x.segs = [Seg(None, [b], z3.And(0 <= b, b < n), s.at([p(*(outer + [b])) + lo]), 0, s.count())]


def make_random():
    m = Mod('random')
    r = SymRandom()
    for k in ('random', 'uniform', 'randint', 'randrange', 'choice', 'choices', 'shuffle', 'sample', 'seed', 'gauss', 'normalvariate',
              'getrandbits', 'Random', 'SystemRandom'):
        setattr(m, k, getattr(r, k))
    return m


def make_collections():
    import collections
    m = Mod('collections')
    for k in dir(collections): setattr(m, k, getattr(collections, k))
    m.OrderedDict = ODict
    def dd(factory=None, *a):
        d = TDefaultDict(*a); d.factory = factory; return d
    m.defaultdict = dd
    return m


class ODict(TDict):
    """ordered dictionary; opts['odict'] replaces new ones by a recorder"""
    def __new__(cls, *a, **k):
        f = core.ENG.opts.get('odict') if core.ENG is not None else None
        return f(*a, **k) if f and cls is ODict else TDict.__new__(cls, *a, **k)


class TDefaultDict(TDict):
    factory = None
    def __missing__(self, k):
        if self.factory is None: raise KeyError(k)
        v = self.factory()
        self[k] = v
        return v
    def __getitem__(self, k):
        if k in self: return TDict.__getitem__(self, k)
        return self.__missing__(k)


def make_noise():
    m = Mod('noise')
    def nf(name):
        def f(*a, **k):
            E = core.ENG
            args = [OpF.of(x).e for x in a]
            if any(isinstance(v, SYM) for v in k.values()): raise Unsupported('symbolic noise option')
            fn = z3.Function('noise_' + name + ''.join(',%s=%r' % kv for kv in sorted(k.items())), *([z3.RealSort()] * (len(args) + 1)))
            r = fn(*args)
            E.define(z3.And(r >= -1, r <= 1))
            E.assumptions.add('noise.%s is a function with values in [-1,1]' % name)
            return OpF(r)
        return f
    for k in ('pnoise1', 'pnoise2', 'pnoise3', 'snoise2', 'snoise3'): setattr(m, k, nf(k))
    return m


class ProgressBar:
    """contract of a progress bar: no effect on the program"""
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __getattr__(self, k): return lambda *a, **kw: None


def make_tqdm():
    m = Mod('tqdm')
    m.tqdm = lambda it=None, *a, **k: it if it is not None else ProgressBar()
    m.trange = lambda *a, **k: s_range(*a)
    return m


def make_copy():
    import copy
    return copy


class LogStub:
    def __getattr__(self, k): return lambda *a, **kw: None
    level = 100
def make_logging():
    import logging
    m = Mod('logging')
    for k in dir(logging): setattr(m, k, getattr(logging, k))
    st = LogStub()
    m.getLogger = lambda *a: st
    for k in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log', 'basicConfig'): setattr(m, k, lambda *a, **kw: None)
    return m


MODS = {}
NDMODS = {}
EXTRA = {}       # name -> factory, registered by harness support (struct, gzip)


def get_mod(name):
    if name in MODS: return MODS[name]
    f = {'math': make_math, 'random': make_random, 'collections': make_collections, 'noise': make_noise, 'tqdm': make_tqdm,
         'logging': make_logging}.get(name) or EXTRA.get(name)
    if f is None: return None
    MODS[name] = f()
    return MODS[name]


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        m = get_mod(name)
        if m is not None: return m
        m = NDMODS.get(name.split('.')[0])
        if m is None:
            m = effects.module(name, Mod)
            if m is not None: NDMODS[name.split('.')[0]] = m
        if m is not None and not (fromlist and '.' in name): return m
        if name == 'colorsys': return load_std('colorsys')
    return builtins.__import__(name, globals, locals, fromlist, level)


_std = {}
def load_std(name):
    """a pure-python standard library module, instrumented like the code under test"""
    if name in _std: return _std[name]
    import importlib.util
    sp = importlib.util.find_spec(name)
    m = Mod(name)
    m.__dict__['__builtins__'] = BUILTINS
    m.__dict__.update(HOOKS)
    exec(instr.instrument(open(sp.origin).read(), sp.origin, name), m.__dict__)
    _std[name] = m
    return m


BUILTINS = dict(builtins.__dict__)
BUILTINS.update({'range': s_range, 'len': s_len, 'isinstance': s_isinstance, 'int': s_int, 'float': s_float, 'bool': s_bool, 'str': s_str,
                 'min': s_min, 'max': s_max, 'sum': s_sum, 'abs': s_abs, 'round': s_round, 'all': s_all, 'any': s_any,
                 'enumerate': s_enumerate, 'zip': s_zip, 'map': s_map, 'filter': s_filter, 'sorted': s_sorted, 'reversed': s_reversed,
                 'tuple': s_tuple, 'list': s_list, 'dict': s_dict, 'set': s_set, 'next': s_next, 'chr': s_chr, 'ord': s_ord,
                 'print': s_print, 'open': s_open, 'type': s_type, 'hash': s_hash, 'id': s_id, 'divmod': s_divmod, '__import__': s_import,
                 'frozenset': s_set, 'pow': s_pow})
HOOKS = {'_vc_for': rt.vc_for, '_vc_wh': rt.vc_while, '_vc_cells': vc_cells, '_vc_BRK': rt.BRK, '_vc_Ret': rt.Ret, '_vc_Gen': Gen, '_vc_sa': rt.setattr_,
         '_vc_and': vc_and, '_vc_or': vc_or, '_vc_not': vc_not, '_vc_in': vc_in, '_vc_mod': vc_mod, '_vc_iop': vc_iop,
         '_vc_isret': vc_isret, '_vc_up': vc_up, '_vc_star': vc_star, '_vc_listcomp': vc_listcomp, '_vc_setcomp': vc_setcomp,
         '_vc_dictcomp': vc_dictcomp, '_vc_list': vc_list, '_vc_set': vc_set, '_vc_dict': vc_dict, '_vc_dictcopy': vc_dictcopy,
         '_vc_yf': vc_yf, '_vc_Base': rt.VCBase}

# ------------------------------------------------------------------ loader

class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = open(path, encoding='utf-8').read()
        LOADED[fullname] = path
        return instr.instrument(src, path, fullname)
    def exec_module(self, module):
        code = self.get_code(module.__name__)
        module.__dict__['__builtins__'] = BUILTINS
        module.__dict__.update(HOOKS)
        exec(code, module.__dict__)


LOADED = {}


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, pkg): self.root = root; self.pkg = pkg
    def find_spec(self, fullname, path, target=None):
        if fullname != self.pkg and not fullname.startswith(self.pkg + '.'): return None
        rel = fullname.replace('.', '/')
        d = os.path.join(self.root, rel)
        import importlib.util
        if os.path.isdir(d):
            f = os.path.join(d, '__init__.py')
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f), submodule_search_locations=[d])
        f = d + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f))
        return None


def install(root='/repo', pkg='redeclipse'):
    sys.path.append('/opt/venv/lib/python3.12/site-packages')
    sys.path.insert(0, root)
    sys.meta_path.insert(0, Finder(root, pkg))
    sys.setrecursionlimit(20000)
