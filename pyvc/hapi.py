"""Harness API.  A contract is a function fn(E); E is
  SymE  - the verifier: inputs are arbitrary symbols, E.check() is a proof obligation
  ConE  - bounded search / replay: inputs are concrete, E.check() is evaluated on the real code."""
import random as _pyrandom, math, itertools, traceback, builtins
from fractions import Fraction


class Contract:
    def __init__(self, name, fn, functions=(), opts=None, sym=True, con=True, note='', weight=1.0, cover=(), lemma=False, side=''):
        self.name = name; self.fn = fn; self.functions = list(functions); self.opts = opts or {}
        self.sym = sym; self.con = con; self.note = note; self.weight = weight; self.cover = list(cover); self.lemma = lemma
        self.side = side      # contracts against a format both sides share: 'writer'/'reader' (see check.py)


class Registry(list):
    def __call__(self, name=None, **k):
        def deco(fn):
            self.append(Contract(name or fn.__name__, fn, **k))
            return fn
        return deco


class Skip(Exception):
    pass


class Interface(BaseException):
    """the code is divided into functions in another way than the contract assumes: it says nothing about this code"""


def interface(ex):
    """the harness itself met a private function that is gone or takes other arguments: the contract says nothing about this code"""
    import re, os
    fr = traceback.extract_tb(ex.__traceback__)[-1].filename
    if os.path.basename(os.path.dirname(fr)) not in ('harness', 'pyvc'): return False
    if isinstance(ex, AttributeError): return str(getattr(ex, 'name', '')).lstrip('_') != str(getattr(ex, 'name', ''))
    return isinstance(ex, TypeError) and re.match(r'[\w.]*\b_\w+\(\) (got an unexpected keyword|missing \d+ required|takes \d+ positional|takes from)', str(ex)) is not None


class CheckFailed(Exception):
    def __init__(self, name, detail): Exception.__init__(self, name); self.name = name; self.detail = detail


# --------------------------------------------------------------------------- concrete

class ConE:
    sym = False
    def __init__(self, seed, given=None, edge=0.5):
        self.rng = _pyrandom.Random(seed)
        self.given = given or {}
        self.rec = {}
        self.count = {}
        self.edge = edge
        self.checked = {}
        self.covered = set()
        self.draws = []
        self.hints = [0.0, 0.5, 1 - 2.0 ** -53, 2.0 ** -53, 0.25, 0.75]
        self.cleanup = []
        self.stubs = {}

    def _nm(self, name):
        k = self.count.get(name, 0)
        self.count[name] = k + 1
        return name if k == 0 else '%s#%d' % (name, k)

    def _val(self, name, draw):
        nm = self._nm(name)
        v = self.given[nm] if nm in self.given else draw()
        self.rec[nm] = v
        return v

    def int(self, name, lo=None, hi=None, f=False):
        lo2 = -(1 << 20) if lo is None else lo
        hi2 = (1 << 20) if hi is None else hi
        def draw():
            r = self.rng
            m = r.random()
            if hi2 - lo2 <= 12: return r.randint(lo2, hi2)
            if m < 0.18:
                c = [x for x in (lo2, lo2 + 1, hi2, hi2 - 1, 0, 1, -1, 2, 7, 8, 9, -8, -7, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256) if lo2 <= x <= hi2]
                return r.choice(c)
            if m < 0.7:
                c = max(lo2, min(hi2, 0))
                w = r.choice([3, 10, 40])
                return max(lo2, min(hi2, c + r.randint(-w, w)))
            return r.randint(lo2, hi2)
        v = int(self._val(name, draw))
        v = max(lo2, min(hi2, v)) if lo is not None or hi is not None else v
        return float(v) if f else v

    def grid(self, name, lo, hi, den=2, f=True):
        """a multiple of 1/den between lo and hi (python float if f)"""
        k = self.int(name, lo * den, hi * den)
        if f: return k / den
        return k // den if k % den == 0 else k / den

    def real(self, name, lo=0.0, hi=1.0):
        def draw():
            m = self.rng.random()
            if m < 0.1: return lo
            if m < 0.2: return hi
            if m < 0.4: return lo + (hi - lo) * self.rng.choice([0.5, 0.25, 0.1, 0.9, 0.001, 0.999])
            return self.rng.uniform(lo, hi)
        v = self._val(name, draw)
        v = float(Fraction(v)) if isinstance(v, str) else float(v)
        return min(hi, max(lo, v))

    def bool(self, name): return bool(self._val(name, lambda: self.rng.random() < 0.5))

    def choice(self, name, seq):
        seq = list(seq)
        return seq[self._val(name, lambda: self.rng.randrange(len(seq))) % len(seq)]

    def assume(self, c):
        if not c: raise Skip()

    def check(self, name, cond, detail=''):
        self.checked[name] = self.checked.get(name, 0) + 1
        if not cond: raise CheckFailed(name, detail)

    def cover(self, name): self.covered.add(name)

    def And(self, *a):
        return all(bool(x) for x in a)
    def Or(self, *a): return any(bool(x) for x in a)
    def Not(self, a): return not a
    def Implies(self, a, b): return (not a) or bool(b)
    def Iff(self, a, b): return bool(a) == bool(b)
    def Eq(self, a, b): return a == b

    def floor(self, x): return math.floor(x)
    def ite(self, c, a, b): return a if c else b

    def raises(self, fn, *exc):
        """the exception raised by fn, or None"""
        try:
            self.result = fn()
            return None
        except (exc or (Exception,)) as e:
            if interface(e): self.interface(str(e))
            return e

    # sequences
    def collect(self, it): return list(it)
    def any_element(self, seq, name='elem'):
        if not seq: raise Skip()
        return self.rng.choice(seq)
    def all_elements(self, seq, fn):
        for x in seq: fn(x)
    def contains(self, seq, v): return any(x == v for x in seq)
    def distinct(self, seq):
        return len({tuple(x) if hasattr(x, '__iter__') else x for x in seq}) == len(seq)
    def length(self, seq): return len(seq)

    # random module under control
    def patch_random(self):
        import random
        saved = {k: getattr(random, k) for k in ('random', 'uniform', 'randint', 'randrange', 'choice', 'shuffle', 'sample', 'gauss')}
        R = self.rng
        def rnd():
            v = R.choice(self.hints) if R.random() < 0.35 else R.random()
            v = min(max(v, 0.0), 1 - 2.0 ** -53)
            self.draws.append(v)
            return v
        random.random = rnd
        random.uniform = lambda a, b: a + (b - a) * rnd()
        random.randint = lambda a, b: R.choice([a, b]) if R.random() < .3 and a <= b and isinstance(a + b, int) else R.randint(a, b)
        random.randrange = R.randrange
        random.choice = R.choice
        random.shuffle = R.shuffle
        random.sample = R.sample
        random.gauss = R.gauss
        def undo():
            for k, v in saved.items(): setattr(random, k, v)
        self.cleanup.append(undo)

    def hint(self, v): self.hints.append(v)

    def patch(self, obj, name, val, must=False):
        """replaces a callee by a stand-in.  A callee that no longer exists, or is called with other arguments than the stand-in
        knows, means that the code is divided into functions differently: the contract then says nothing (Skip / Unsupported)"""
        import types
        if not hasattr(obj, name) and not (isinstance(obj, types.ModuleType) and hasattr(builtins, name)): self.interface('%s is gone' % name)
        static = isinstance(val, staticmethod)
        f = val.__func__ if static else val
        if isinstance(f, types.FunctionType):
            w = self.stand_in(name, f)
            val = staticmethod(w) if static else w
            if must: self.stubs.setdefault(name, False)
        old = obj.__dict__.get(name, _MISSING) if hasattr(obj, '__dict__') else _MISSING
        setattr(obj, name, val)
        def undo():
            if old is _MISSING: delattr(obj, name)
            else: setattr(obj, name, old)
        self.cleanup.append(undo)

    def interface(self, why): raise Interface(why)
    def private(self, obj, name):
        if not hasattr(obj, name): self.interface('%s is gone' % name)
        return getattr(obj, name)

    def stand_in(self, name, f):
        import inspect
        sig = inspect.signature(f)
        called = self.stubs
        def stub(*a, **k):
            called[name] = True
            try: sig.bind(*a, **k)
            except TypeError as ex: self.interface('%s is called with other arguments: %s' % (name, ex))
            return f(*a, **k)
        return stub

    def done(self):
        for f in reversed(self.cleanup): f()
        self.cleanup = []


_MISSING = object()


def _mkpatch(E, obj, name, val):
    ConE.patch(E, obj, name, val)


# --------------------------------------------------------------------------- symbolic

class SymE:
    sym = True
    def __init__(self, eng):
        self.eng = eng
        self.count = {}
        self.cleanup = []
        self.draws = []
        if not hasattr(eng, 'stubs'): eng.stubs = {}
        self.stubs = eng.stubs

    def _nm(self, name):
        k = self.count.get(name, 0)
        self.count[name] = k + 1
        return name if k == 0 else '%s#%d' % (name, k)

    def int(self, name, lo=None, hi=None, f=False):
        nm = self._nm(name)
        import z3
        if lo is None and hi is None and f: lo, hi = -(1 << 40), 1 << 40
        if lo is not None and lo == hi: 
            self.eng.inputs[nm] = lambda m, lo=lo: lo
            return float(lo) if f else lo
        v = self.eng.fresh_int('in_' + nm, lo, hi, f)
        e = list(v.t.values())[0][0]
        self.eng.inputs[nm] = lambda m, e=e: m.eval(e, model_completion=True).as_long()
        return v

    def grid(self, name, lo, hi, den=2, f=True):
        v = self.int(name, lo * den, hi * den)
        if isinstance(v, int): return v / den
        return v.scale(Fraction(1, den), f)

    def real(self, name, lo=0, hi=1):
        from . import core
        nm = self._nm(name)
        v = self.eng.fresh_real('in_' + nm, lo, hi)
        def ext(m, e=v.e):
            x = m.eval(e, model_completion=True)
            try: return float(x.as_fraction())
            except Exception: return float(x.approx(20).as_fraction())
        self.eng.inputs[nm] = ext
        return v

    def bool(self, name):
        nm = self._nm(name)
        v = bool(self.eng.choose(2, nm))
        self.eng.inputs[nm] = lambda m, v=v: v
        return v

    def choice(self, name, seq):
        nm = self._nm(name)
        seq = list(seq)
        i = self.eng.choose(len(seq), nm) if len(seq) > 1 else 0
        self.eng.inputs[nm] = lambda m, i=i: i
        return seq[i]

    def assume(self, c): self.eng.assume(c)
    def check(self, name, cond, detail=''): self.eng.check(name, cond, detail)
    def cover(self, name): self.eng.cover(name)

    def And(self, *a):
        from . import core
        return core.and_(*a)
    def Or(self, *a):
        from . import core
        return core.or_(*a)
    def Not(self, a):
        from . import core
        return core.not_(a)
    def Implies(self, a, b):
        from . import core
        return core.or_(core.not_(a), b)
    def Iff(self, a, b):
        from . import core
        import z3
        return core.SymBool.mk(core.bz(a) == core.bz(b))
    def Eq(self, a, b):
        from . import rt
        return rt.sym_eq(a, b)
    def floor(self, x):
        from . import core
        return core.floor_(x)
    def ite(self, c, a, b):
        from . import core
        return core.ite_num(c, a, b)

    def raises(self, fn, *exc):
        try:
            self.result = fn()
            return None
        except (exc or (Exception,)) as e:
            if interface(e): self.interface(str(e))
            if isinstance(e, RecursionError) or isinstance(e, (TypeError, AttributeError, NameError)) and not exc:
                from . import core
                raise core.Unsupported('%s: %s' % (type(e).__name__, e))
            return e

    def collect(self, it):
        from . import rt
        return rt.TList(it)
    def any_element(self, seq, name='elem'):
        from . import rt
        if not bool(seq.vc_len() != 0): raise Skip()
        return rt.some_element(seq)
    def all_elements(self, seq, fn):
        """fn applied to an arbitrary element (its checks are obligations for every element)"""
        from . import rt
        segs = [s for s in seq.get_segs() if s.items is None or s.items]
        if not segs: return
        k = self.eng.choose(len(segs) + 1, 'segment')
        if k == len(segs): return
        s = segs[k]
        if s.items is not None:
            for x in s.items: fn(x)
        else:
            ts = rt.skolem(s)
            self.eng.assume(s.guard_at(ts))
            fn(s.at(ts))
    def contains(self, seq, v):
        from . import rt
        return rt.contains(seq, v)
    def distinct(self, seq):
        from . import rt, core
        import z3
        out = []
        inst = []
        for n, s in enumerate(seq.get_segs()):
            if s.items is not None: inst += [(s.items[j], z3.BoolVal(True), (n, j), None) for j in range(len(s.items))]
            else:
                for rep in (0, 1):
                    ts = rt.skolem(s)
                    inst.append((s.at(ts), s.guard_at(ts), (n, rep), ts))
        for a in range(len(inst)):
            for b in range(a + 1, len(inst)):
                x, g, ix, ta = inst[a]; y, h, iy, tb = inst[b]
                diff = z3.BoolVal(True)
                if ix[0] == iy[0] and ta is not None: diff = z3.Or([p != q for p, q in zip(ta, tb)])
                out.append(z3.Implies(z3.And(g, h, diff), z3.Not(core.bz(rt.sym_eq(x, y)))))
        return core.SymBool.mk(z3.And(out)) if out else True
    def length(self, seq): return seq.vc_len()
    def shuffled(self, i):
        """names the place of element i in every shuffled list (an instance of the axioms of shuffling)"""
        import z3
        from . import core
        i = core.num(i).z()
        for p, q, n in self.eng.perms: self.eng.define(z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(i), q(i) < n, p(q(i)) == i)))
    def patch_random(self): pass
    def hint(self, v): pass
    def patch(self, obj, name, val, must=False): ConE.patch(self, obj, name, val, must)
    def stand_in(self, name, f): return ConE.stand_in(self, name, f)
    def private(self, obj, name): return ConE.private(self, obj, name)
    def interface(self, why):
        from . import core
        raise core.Unsupported('the functions are divided differently: ' + why)
    def done(self):
        for f in reversed(self.cleanup): f()
        self.cleanup = []
