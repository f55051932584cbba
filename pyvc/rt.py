"""pyvc runtime: loops, containers and builtin shims used by instrumented code."""
import builtins, math, itertools, copy as _copy
import z3
from . import core
from .core import (Num, Approx, OpF, SymBool, Poison, Opaque, Unsupported, NeedSummary, BodyDone, GenStop,
                   RestartFrame, Ctl, Infeasible, and_, or_, not_, bz, num, floor_, ceil_, int_, round_, with_f)

class Sig:
    pass
BRK = Sig()
class Ret(Sig):
    def __init__(self, v): self.value = v

UNB = object()      # unbound marker


class LoopCtx:
    __slots__ = ('key', 'ident', 'binders', 'effects', 'reads', 'lo', 'hi', 'frame', 'lens', 'whole')


class VCBase(object):
    """root of every instrumented class: stamps the loop depth at creation"""
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        stamp(o)
        return o
    def __repr__(self):
        # the default text of an object contains its address
        return '\0nd!<%s object>' % type(self).__name__


def stamp(o):
    E = core.ENG
    if E is not None:
        E.births[id(o)] = (o, len(E.loopstack), len(E.by_serial))
        E.by_serial.append(o)


def is_outer(o):
    E = core.ENG
    b = E.births.get(id(o))
    d = len(E.loopstack)
    if b is None: return d > 0
    return b[1] < d


def setattr_(obj, name, val):
    E = core.ENG
    if E is not None and E.loopstack and is_outer(obj):
        if id(obj) not in E.births: raise Unsupported('attribute write on a foreign object inside a summarised loop')
        cell = ('attr', E.births[id(obj)][2], name)
        fr = E.loopstack[-1].frame
        old = getattr(obj, name, UNB)
        if old is val: return
        if cell not in fr.carried and ('w', cell) not in fr.carried:
            fr.carried[cell] = None
            raise RestartFrame(fr.key)
    setattr(obj, name, val)

# ------------------------------------------------------------------ substitution

def subst_obj(o, pairs, memo=None):
    """replace binder constants inside a python object graph"""
    if not pairs: return o
    if memo is None: memo = {}
    if isinstance(o, (int, float, str, bytes, type(None), type, bool)) or callable(o) and not hasattr(o, '__dict__'): return o
    k = id(o)
    if k in memo: return memo[k][0]
    E = core.ENG
    if isinstance(o, Num):
        if all(z3.substitute(a, *pairs).eq(a) for (a, c) in o.t.values()): return o
        r = Num({}, o.c, False)
        for (a, c) in o.t.values():
            a2 = z3.substitute(a, *pairs)
            if a2.eq(a): at = Num({a.get_id(): (a, 1)}, 0, False)
            else: at = num(E.atom(a2, E.atom_bounds.get(a.get_id(), (None, None)), False))
            r = num(r) + at.scale(c, False) if isinstance(at, Num) else r
            r = num(r)
        r = with_f(r, o.f) if r.t else core._const(r.c, o.f)
    elif isinstance(o, SymBool):
        e = z3.substitute(o.e, *pairs)
        r = o if e.eq(o.e) else SymBool.mk(e)
    elif isinstance(o, OpF):
        e = z3.substitute(o.e, *pairs)
        r = o if e.eq(o.e) else OpF(e)
    elif isinstance(o, z3.ExprRef):
        e = z3.substitute(o, *pairs)
        r = o if e.eq(o) else e
    elif isinstance(o, Opaque):
        e = z3.substitute(o._term, *pairs)
        r = Opaque(e, o._kind, None)
        memo[k] = (r, o)
        at = {a: subst_obj(v, pairs, memo) for a, v in o._at.items()}
        r.__dict__['_at'] = at
        if e.eq(o._term) and all(at[a] is o._at[a] for a in at): r = o
    elif type(o) is tuple:
        r = tuple(subst_obj(x, pairs, memo) for x in o)
        if all(a is b for a, b in zip(r, o)): r = o
    elif isinstance(o, TList):
        r = TList()
        memo[k] = (r, o)
        r.segs = [s.subst(pairs, memo) for s in o.segs]
        if all(a is b for a, b in zip(r.segs, o.segs)): r = o
    elif type(o) is list:
        r = [subst_obj(x, pairs, memo) for x in o]
        if all(a is b for a, b in zip(r, o)): r = o
    elif isinstance(o, TDict):
        if o.sym: raise Unsupported('substitution in symbolic dict')
        its = [(a, b, subst_obj(a, pairs, memo), subst_obj(b, pairs, memo)) for a, b in dict.items(o)]
        r = o if all(a is c and b is d for a, b, c, d in its) else TDict([(c, d) for a, b, c, d in its])
    elif type(o) is dict:
        r = {a: subst_obj(b, pairs, memo) for a, b in o.items()}
        if all(r[a] is o[a] for a in o): r = o
    elif isinstance(o, SubstProto): r = o.vc_subst(pairs, memo)
    elif isinstance(o, VCBase):
        d = o.__dict__
        r = o
        # only copy when something inside changes
        r = object.__new__(type(o))
        memo[k] = (r, o)
        ch = False
        for a, v in d.items():
            v2 = subst_obj(v, pairs, memo)
            if v2 is not v: ch = True
            r.__dict__[a] = v2
        if not ch: r = o
    else:
        r = o
    memo[k] = (r, o)
    return r


class SubstProto:
    pass


def sym_eq(a, b):
    """structural equality as a formula (no forking)"""
    if a is b: return True
    if isinstance(a, (Num, OpF, int, float, SymBool)) and isinstance(b, (Num, OpF, int, float, SymBool)):
        return a == b
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and isinstance(a, tuple) == isinstance(b, tuple):
        if isinstance(a, TList) and a.symbolic() or isinstance(b, TList) and b.symbolic():
            raise Unsupported('equality of symbolic lists')
        if len(a) != len(b): return False
        return and_(*[sym_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if isinstance(a, Opaque) and isinstance(b, Opaque): return a == b
        return SymBool.mk(core.ENG.intern_id(a) == core.ENG.intern_id(b))
    va, vb = vec_of(a), vec_of(b)
    if va is not None and vb is not None:
        ca, cb = va[0], vb[0]
        if ca == cb: return and_(*[x == y for x, y in zip(va[1], vb[1])])
        if {ca, cb} == {'FineVector', 'CoarseVector'}:
            sa, sb = (8 if ca == 'CoarseVector' else 1), (8 if cb == 'CoarseVector' else 1)
            return and_(*[x * sa == y * sb for x, y in zip(va[1], vb[1])])
        raise Unsupported('equality of mixed vectors')
    if hasattr(a, 'vc_eq'): return a.vc_eq(b)
    if hasattr(b, 'vc_eq'): return b.vc_eq(a)
    if isinstance(a, VCBase) or isinstance(b, VCBase):
        if type(a).__eq__ is object.__eq__ or type(b).__eq__ is object.__eq__: return a is b
        raise Unsupported('equality of objects')
    return a == b


def vec_of(o):
    d = getattr(o, '__dict__', None)
    if d is not None and not isinstance(o, Opaque) and type(o).__name__ in ('CoarseVector', 'FineVector', 'BaseVector') and 'z' in d:
        return (type(o).__name__, (d['x'], d['y'], d['z']))
    return None


def is_sym(o, depth=0):
    if isinstance(o, (Num, SymBool, OpF, Approx, Opaque, Poison)): return True
    if isinstance(o, tuple): return any(is_sym(x) for x in o)
    if isinstance(o, str): return '\0' in o
    v = vec_of(o)
    if v: return any(is_sym(x) for x in v[1])
    return hasattr(o, 'vc_eq')


def keyterms(k):
    """(kind, list of z3 Int terms) of a dictionary key"""
    if isinstance(k, SymBool): k = k.num()
    if isinstance(k, (Num, int, float)):
        n = num(k)
        return 'n', [_kz(n)]
    if isinstance(k, tuple):
        kinds, ts = [], []
        for x in k:
            a, b = keyterms(x)
            kinds.append(a); ts += b
        return ('t',) + tuple(kinds), ts
    v = vec_of(k)
    if v:
        ts = []
        for x in v[1]: ts.append(_kz(num(x)))
        return v[0], ts
    if isinstance(k, Opaque): return 'o', [k._term]
    if hasattr(k, 'vc_key'): return k.vc_key()
    if isinstance(k, (str, bytes, type(None))):
        if isinstance(k, str):
            if '\0' in k: raise Unsupported('key formatted from a symbolic value')
            E = core.ENG
            if k not in E.str_consts:
                E.str_consts.add(k)
                for r in E.str_templates.values():
                    if r.fullmatch(k): raise Unsupported('constant string %r may equal a formatted one' % k)
        return 's', [z3.IntVal(abs(hash_str(k)))]
    if isinstance(k, VCBase): return 'o', [core.ENG.intern_id(k)]
    raise Unsupported('dictionary key %r' % (type(k),))


class SymKey:
    pass


def _kz(n):
    if n is NotImplemented: raise Unsupported('key component')
    return n.z(2)      # keys are compared on the half-unit grid


import zlib
def hash_str(k):
    if k is None: return 7
    b = k.encode() if isinstance(k, str) else b'b' + k
    return (len(b) << 32) + zlib.crc32(b)

# ------------------------------------------------------------------ sequences

class Seg:
    """part of a sequence: either concrete (items) or {elem(b) | b binders, guard(b)}"""
    __slots__ = ('items', 'binders', 'guard', 'elem', 'lo', 'hi', 'name')
    def __init__(self, items=None, binders=None, guard=None, elem=None, lo=None, hi=None):
        self.items = items; self.binders = binders; self.guard = guard; self.elem = elem
        self.lo = lo; self.hi = hi      # single-binder full range [lo,hi) iff lo is not None
    def at(self, terms):
        return subst_obj(self.elem, list(zip(self.binders, terms)))
    def guard_at(self, terms):
        return z3.substitute(self.guard, *zip(self.binders, terms))
    def subst(self, pairs, memo=None):
        if self.items is not None:
            n = [subst_obj(x, pairs, memo) for x in self.items]
            return self if all(a is b for a, b in zip(n, self.items)) else Seg(items=n)
        g, el = z3.substitute(self.guard, *pairs), subst_obj(self.elem, pairs, memo)
        lo, hi = subst_obj(self.lo, pairs), subst_obj(self.hi, pairs)
        if g.eq(self.guard) and el is self.elem and lo is self.lo and hi is self.hi: return self
        return Seg(None, self.binders, g, el, lo, hi)
    def count(self):
        E = core.ENG
        if self.items is not None: return len(self.items)
        if self.lo is not None:
            d = self.hi - self.lo
            lo, hi = num(d).bounds()
            if lo is not None and lo >= 0: return d
            return core.ite_num(d > 0, d, 0)
        # canonical count symbol: function of the free symbols of the guard
        e = z3.Exists(self.binders, self.guard)
        fv = free_consts(e)
        key = canon(e)
        f = z3.Function('count#%s' % key, *([c.sort() for c in fv] + [z3.IntSort()])) if fv else z3.Int('count#%s' % key)
        t = f(*fv) if fv else f
        if E.opts.get('count_equiv'):      # two descriptions of the same set have the same count
            reg = E.counted
            if key not in reg:
                for k2, (bs2, g2, t2) in list(reg.items()):
                    if len(bs2) == len(self.binders) and E.entails(z3.ForAll(self.binders, self.guard == z3.substitute(g2, *zip(bs2, self.binders)))): E.define(t == t2)
                reg[key] = (self.binders, self.guard, t)
        E.fact(t >= 0, t)
        E.fact((t == 0) == z3.Not(e), t)
        return E.atom(t, (0, None), False)


def free_consts(e):
    seen, out, st = set(), [], [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
            st.extend(x.children())
    return sorted(out, key=lambda c: c.decl().name())


def canon(e):
    import hashlib
    # de Bruijn form is alpha-invariant in z3's sexpr apart from the binder names
    import re
    s = z3.simplify(e).sexpr()
    names = []
    def rn(m):
        n = m.group(0)
        if n not in names: names.append(n)
        return 'b%d' % names.index(n)
    s = re.sub(r"i![0-9]+(_[0-9a-z]+)?", rn, s)
    return hashlib.md5(s.encode()).hexdigest()[:10]


class Pick(SubstProto):
    """one of finitely many concrete objects, selected by a term"""
    def __init__(self, items, term): self.items = items; self.term = term
    def vc_subst(self, pairs, memo): return Pick([subst_obj(x, pairs, memo) for x in self.items], z3.substitute(self.term, *pairs))
    def settle(self):
        for k in range(len(self.items) - 1):
            if builtins.bool(SymBool.mk(self.term == k)): return self.items[k]
        return self.items[-1]


class AltPick(Pick):
    """the object appended by the path whose condition holds"""
    def __init__(self, alts): self.alts = alts
    def vc_subst(self, pairs, memo): return AltPick([(z3.substitute(g, *pairs), subst_obj(x, pairs, memo)) for g, x in self.alts])
    def settle(self):
        for g, x in self.alts[:-1]:
            if builtins.bool(SymBool.mk(g)): return x
        return self.alts[-1][1]


def settled(x): return x.settle() if isinstance(x, Pick) else x


class SeqBase:
    def get_segs(self): raise NotImplementedError


def newbinders(k, tag=''):
    E = core.ENG
    out = []
    for j in range(k):
        E.fresh_n['_b'] = E.fresh_n.get('_b', 0) + 1
        out.append(z3.Int('i!%d_%d' % (E.fresh_n['_b'], len(E.trace))))
    return out


def fork_index(n, i):
    """an unknown index into a list of n elements, as a plain number: one path for each"""
    for k in range(n):
        if builtins.bool(or_(i == k, i == k - n)): return k
    raise IndexError('list assignment index out of range')


class TList(list, SeqBase):
    """list whose content may be symbolic segments"""
    def __init__(self, it=()):
        self.segs = [Seg(items=[])]
        stamp(self)
        if isinstance(it, (list, tuple)) and not isinstance(it, TList):
            self.segs[0].items.extend(it)
        else:
            def add(v): self.append(v)
            vc_for(it, add, None)
    def symbolic(self): return any(s.items is None for s in self.segs)
    def _rd(self): whole_read(self)
    def get_segs(self):
        self._rd()
        return self.segs
    def _c(self):
        if len(self.segs) == 1 and self.segs[0].items is not None: return self.segs[0].items
        if not self.symbolic():
            its = [x for s in self.segs for x in s.items]
            self.segs = [Seg(items=its)]
            return its
        raise Unsupported('concrete view of a symbolic list')
    def _eff(self, kind, data):
        E = core.ENG
        if E.loopstack and is_outer(self):
            E.loopstack[-1].effects.append((ref_of(E, self), kind, data, [], []))
            return True
        return False
    def append(self, v):
        if core.ENG is not None and self._eff('append', v): return
        if self.segs[-1].items is None: self.segs.append(Seg(items=[]))
        self.segs[-1].items.append(v)
    def extend(self, it):
        def add(v): self.append(v)
        vc_for(it, add, None)
    def __iadd__(self, it):
        self.extend(it); return self
    def __add__(self, o):
        r = TList(); r.extend(self); r.extend(o); return r
    def __radd__(self, o):
        r = TList(); r.extend(o); r.extend(self); return r
    def __mul__(self, n):
        if isinstance(n, Num):
            c = self._c()
            if len(c) == 1:
                b, = newbinders(1)
                z = n.z()
                r = TList(); r.segs = [Seg(None, [b], z3.And(b >= 0, b < z), c[0], 0, n)]
                return r
            raise Unsupported('list * symbolic')
        return TList(list(self._c()) * n)
    __rmul__ = __mul__
    def apply_effects(self, effs):
        """effs: list of (kind, data, binders, guard)"""
        E = core.ENG
        if E.loopstack and is_outer(self):
            for (kind, data, bs, g, full) in effs:
                E.loopstack[-1].effects.append((ref_of(E, self), kind, data, list(bs), [(g, full)]))
            return
        if len(effs) == 1 and effs[0][0] == 'set': return self.set_all(*effs[0][1:])
        for (kind, data, bs, g, full) in effs:
            if kind != 'append': raise Unsupported('list operation %s in summarised loop' % kind)
            s = Seg(None, bs, g, data)
            if full is not None: s.lo, s.hi = full
            self.segs.append(s)
    def set_all(self, data, bs, g, full):
        """'for i in range(n): l[i] = v(i)' on a list of n elements"""
        i, v = data
        if full is None or len(bs) != 1: raise Unsupported('assignment to list elements in an irregular loop')
        lo, hi = full
        n = self.base_len()
        holds = lambda f: f is True or isinstance(f, SymBool) and core.ENG.entails(f.e)
        if not holds(and_(sym_eq(i, core.ENG.atom(bs[0], (None, None), False)), lo == 0)): raise Unsupported('assignment to some of the list elements in a loop')
        if builtins.bool(hi == n): self.segs = [Seg(None, bs, g, v, lo, hi)]
        elif builtins.bool(hi > n): raise IndexError('list assignment index out of range')
        elif len(self.segs) == 1 and self.segs[0].lo is not None:      # the rest stays
            o = self.segs[0]
            a = num(hi + o.lo) if builtins.bool(hi >= 0) else num(o.lo)
            self.segs = [Seg(None, bs, g, v, lo, hi), Seg(None, o.binders, z3.And(o.guard, o.binders[0] >= a.z()), o.elem, a, o.hi)]
        else: raise Unsupported('assignment to some of the list elements in a loop')
    def insert(self, i, v):
        self._mut(); self._c().insert(i, v)
    def pop(self, i=-1):
        self._mut(); return self._c().pop(i)
    def remove(self, v):
        self._mut()
        c = self._c()
        for i, x in enumerate(c):
            if builtins.bool(sym_eq(x, v)): del c[i]; return
        raise ValueError('list.remove(x): x not in list')
    def clear(self):
        self._mut(); self.segs = [Seg(items=[])]
    def sort(self, **k):
        self._mut(); self._c().sort(**k)
    def reverse(self):
        self._mut(); self._c().reverse()
    def _mut(self):
        E = core.ENG
        if E is not None and E.loopstack and is_outer(self): raise Unsupported('list mutation in summarised loop')
    def __iter__(self):
        self._rd()
        return iter(self._c())
    def __reversed__(self):
        self._rd()
        return reversed(self._c())
    def __len__(self):
        n = self.vc_len()
        if isinstance(n, Num): raise Unsupported('len() of symbolic list by C code')
        return n
    def vc_len(self):
        E = core.ENG
        if E is not None and E.loopstack and is_outer(self): return len_in_loop(E, self, len(E.loopstack))
        return self.base_len()
    def base_len(self):
        n = 0
        for s in self.segs: n = n + s.count()
        return n
    def __bool__(self):
        n = self.vc_len()
        return builtins.bool(n != 0)
    def __getitem__(self, i):
        self._rd()
        if not self.symbolic():
            if isinstance(i, Num): return sym_index(self._c(), i)
            r = self._c()[i]
            return TList(r) if isinstance(i, slice) else r
        if isinstance(i, slice): raise Unsupported('slice of symbolic list')
        segs = [x for x in self.segs if x.items is None or x.items]
        if all(x.items is not None or x.lo is not None for x in segs):
            n = self.vc_len()
            if builtins.bool(and_(i >= 0, i < n)): j = i
            elif builtins.bool(and_(i < 0, i >= -n)): j = i + n
            else: raise IndexError('list index out of range')
            for k, x in enumerate(segs):
                c = x.count()
                if k == len(segs) - 1 or builtins.bool(j < c):
                    if x.items is not None: return sym_index(x.items, j)
                    return settled(x.at([num(j + x.lo).z()]))
                j = j - c
        if i == 0 or i == -1:
            n = self.vc_len()
            if not builtins.bool(n != 0): raise IndexError('list index out of range')
            return some_element(self)
        # leading concrete part
        off = 0
        for s in self.segs:
            if s.items is None: break
            if isinstance(i, int) and 0 <= i < off + len(s.items): return s.items[i - off]
            off += len(s.items)
        raise Unsupported('index into symbolic list')
    def __setitem__(self, i, v):
        if isinstance(i, Num) and self._eff('set', (i, v)): return
        self._mut()
        if isinstance(i, Num): i = fork_index(len(self._c()), i)
        self._c()[i] = v
    def __delitem__(self, i):
        self._mut(); del self._c()[i]
    def __contains__(self, x):
        return builtins.bool(contains(self, x))
    def __eq__(self, o):
        if not isinstance(o, list): return False
        self._rd()
        a = self._c(); b = o._c() if isinstance(o, TList) else list(o)
        return len(a) == len(b) and all(x == y for x, y in zip(a, b))
    def __ne__(self, o): return not (self == o)
    __hash__ = None
    def index(self, v):
        self._rd()
        return self._c().index(v)
    def count(self, v):
        self._rd()
        return self._c().count(v)
    def copy(self): return TList(self)
    def __copy__(self): return TList(self)
    def __deepcopy__(self, memo):
        if self.symbolic():
            r = TList(); r.segs = list(self.segs); return r
        return TList([_copy.deepcopy(x, memo) for x in self._c()])
    def __repr__(self): return 'TList(%r)' % ([s.items if s.items is not None else '<%s>' % s.guard for s in self.segs],)
    def __reduce_ex__(self, p): return (list, (list(self._c()),))


def whole_read(o):
    """the content of a list or dictionary is read inside a loop (refused if the same loop changes it)"""
    E = core.ENG
    if E is not None and E.loopstack and is_outer(o):
        l = E.loopstack[-1]
        k = obj_serial(E, o)
        if k not in l.whole:
            l.whole.add(k)
            l.reads.append((k, ('whole', []), [], z3.BoolVal(True), True, None))


def len_in_loop(E, o, depth):
    """length of a list in the body of a loop that appends to it: every iteration appends the same number of elements"""
    b = E.births.get(id(o))
    if depth == 0 or b is not None and b[1] >= depth: return o.base_len()
    l = E.loopstack[depth - 1]
    ref = ref_of(E, o)
    key = obj_serial(E, o)
    d = l.frame.carried.get(('len', key), (None, 0))[1]
    n = len_in_loop(E, o, depth - 1)
    l.lens[key] = (ref, d)
    if d:
        if l.lo is None or len(l.binders) != 1: raise Unsupported('length of a list that an irregular loop changes')
        n = n + (E.atom(l.binders[0], (None, None), False) - l.lo) * d
    return n + appended(E, l, ref)


def appended(E, l, ref):
    n = 0
    for (r, kind, data, ebs, eg) in l.effects:
        if r != ref and r is not ref: continue
        if kind != 'append': raise Unsupported('length of a list under %s' % kind)
        if not ebs: n = n + 1
        elif len(eg) == 1 and eg[0][1] is not None:
            d = eg[0][1][1] - eg[0][1][0]
            n = n + (d if isinstance(d, int) and d >= 0 else core.ite_num(d > 0, d, 0))
        else: raise Unsupported('length of a list after an irregular loop')
    return n


class Seq(SeqBase):
    """immutable symbolic sequence given by segments"""
    def __init__(self, segs): self.segs = segs
    def get_segs(self): return self.segs
    def vc_len(self):
        n = 0
        for s in self.segs: n = n + s.count()
        return n
    def __bool__(self): return builtins.bool(self.vc_len() != 0)
    def __iter__(self):
        if all(s.items is not None for s in self.segs): return iter([x for s in self.segs for x in s.items])
        raise Unsupported('C-level iteration over a symbolic sequence')
    def __len__(self):
        n = self.vc_len()
        if isinstance(n, Num): raise Unsupported('len of symbolic sequence')
        return n
    def __contains__(self, x): return builtins.bool(contains(self, x))
    def __getitem__(self, i): 
        t = TList(); t.segs = list(self.segs); return t[i]


def sym_index(items, i):
    n = len(items)
    for j in range(n):
        if builtins.bool(or_(i == j, i == j - n)): return items[j]
    raise IndexError('list index out of range')


def skolem(s):
    E = core.ENG
    ts = [E.const('sk', z3.IntSort()) for _ in s.binders]
    for t, b in zip(ts, s.binders):
        E.atom_keep[t.get_id()] = t
        E.atom_bounds[t.get_id()] = E.atom_bounds.get(b.get_id(), (None, None))
    return ts


def some_element(seq):
    """an arbitrary element of a non-empty symbolic sequence (forks over segments)"""
    E = core.ENG
    segs = seq.get_segs()
    flat = []
    for s in segs:
        if s.items is not None: flat += [(s, j) for j in range(len(s.items))]
        else: flat.append((s, None))
    if not flat: raise IndexError('empty')
    s, j = flat[E.choose(len(flat)) if len(flat) > 1 else 0]
    if j is not None: return s.items[j]
    ts = skolem(s)
    E.assume(s.guard_at(ts))
    return s.at(ts)


def contains(seq, x):
    """formula: x equals some element"""
    out = []
    for s in seq.get_segs():
        if s.items is not None: out += [sym_eq(y, x) for y in s.items]
        else:
            e = sym_eq(s.elem, x)
            if e is False: continue
            out.append(SymBool.mk(core.exists(s.binders, z3.And(s.guard, bz(e)))))
    return or_(*out)


class SymRange(SeqBase):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
    def get_segs(self):
        if not isinstance(self.step, int) or self.step <= 0: raise Unsupported('symbolic range step')
        b, = newbinders(1)
        if self.step == 1:
            g = z3.And(num(self.lo).z() <= b, b < num(self.hi).z())
            el = core.ENG.atom(b, (num(self.lo).bounds()[0], None if num(self.hi).bounds()[1] is None else num(self.hi).bounds()[1] - 1), False)
            return [Seg(None, [b], g, el, self.lo, self.hi)]
        n = (self.hi - self.lo + (self.step - 1)) // self.step
        n = core.ite_num(n > 0, n, 0) if isinstance(n, Num) else max(n, 0)
        g = z3.And(0 <= b, b < num(n).z())
        nb = num(n).bounds()[1]
        i = core.ENG.atom(b, (0, None if nb is None else nb - 1), False)
        return [Seg(None, [b], g, i * self.step + self.lo, 0, n)]
    def vc_len(self): return self.get_segs()[0].count()
    def __contains__(self, x):
        if self.step != 1: raise Unsupported('in range step')
        return builtins.bool(and_(x >= self.lo, x < self.hi))
    def __iter__(self): raise Unsupported('C iteration over symbolic range')
    def __bool__(self): return builtins.bool(self.vc_len() != 0)
    def __getitem__(self, i): return self.lo + i * self.step


class Gen:
    """generator: fn(yield_callback)"""
    def __init__(self, fn): self.fn = fn; self._it = None
    def tolist(self):
        r = TList()
        self.fn(r.append)
        return r
    def __iter__(self):
        if self._it is None: self._it = iter(self.tolist())
        return self._it
    def __next__(self):
        return next(iter(self))


class EnumIt:
    def __init__(self, it, start=0): self.it = it; self.start = start
    def __iter__(self): return builtins.enumerate(iter(self.it), self.start)


class Cell(VCBase):
    def __init__(self, v): self.v = v

# ------------------------------------------------------------------ loops

def concrete_iterable(it):
    return not isinstance(it, (SeqBase, Gen, EnumIt, TDictView)) and not (isinstance(it, TDict) and it.sym)


def vc_for(it, body, cells):
    E = core.ENG
    if E is None:
        for v in it:
            r = body(v)
            if r is not None: return r
        return None
    if isinstance(it, Gen):
        if it._it is not None:
            for v in it._it:
                r = body(v)
                if r is not None: return r
            return None
        ident = object()
        def y(v):
            r = body(v)
            if r is not None: raise GenStop(r, ident)
        E.inline.append(cells)
        try:
            it.fn(y)
        except GenStop as g:
            if g.ident is ident: return g.sig
            raise
        finally:
            E.inline.pop()
        return None
    if isinstance(it, EnumIt):
        c = Cell(it.start)
        def b2(v):
            i = c.v
            setattr_(c, 'v', i + 1)
            return body((i, v))
        return vc_for(it.it, b2, cells)
    if isinstance(it, TDict): it = it.keys()
    if isinstance(it, SeqBase):
        for s in list(it.get_segs()):
            if s.items is not None:
                if len(s.items) >= E.opts.get('generic_list', 1 << 30):
                    b, = newbinders(1)
                    c = Seg(None, [b], z3.And(0 <= b, b < len(s.items)), Pick(list(s.items), b), 0, len(s.items))
                    r = generic(c, lambda v, body=body: body(v.settle()), cells)
                    if r is not None: return r
                    continue
                for v in list(s.items):
                    r = body(v)
                    if r is not None: return r
            else:
                b3 = body if not isinstance(s.elem, Pick) else (lambda v, body=body: body(v.settle()))
                r = generic(s, b3, cells)
                if r is not None: return r
        return None
    if isinstance(it, (Num, Opaque, OpF, SymBool)): raise Unsupported('iteration over a symbolic scalar')
    if isinstance(it, range) and len(it) > E.opts.get('generic_range', 1 << 30) and it.step == 1:
        return vc_for(SymRange(it.start, it.stop), body, cells)
    for v in it:
        r = body(v)
        if r is not None: return r
    return None


def cell_list(E, cells):
    out = []
    for c in [cells] + E.inline[::-1]:
        if c is None: continue
        names, getters, setter, fid, tonly = c
        for j, nme in enumerate(names):
            if nme in tonly: continue
            out.append((('loc', fid, nme), getters[j], (lambda v, j=j, setter=setter: setter(j, v))))
    return out


def sfun(E, cell, key):
    return 'S_%d_%s' % (E.key_ids[key], '_'.join(str(x) for x in cell))


def carried_value(E, cell, v0, mode, kid, key, idx, lo):
    """value of a carried cell at the beginning of iteration idx (z3 term)"""
    if mode[0] == 'cursor':
        st = E.opts['cursor'].at_star(v0)
        return None if st is None else E.opts['cursor'].pos(st, num(E.atom(idx, (None, None), False) - lo).z())
    if mode[0] == 'affine':
        return v0 + (E.atom(idx, (num(lo).bounds()[0], None), False) - lo) * mode[1]
    if mode[0] == 'num':
        bs = E.binders_outer(key)
        isreal = mode[1] == 'real'
        f = z3.Function('S_%d_%s' % (kid, '_'.join(str(x) for x in cell)),
                        *([b.sort() for b in bs] + [z3.IntSort(), z3.RealSort() if isreal else z3.IntSort()]))
        t = f(*(bs + [idx]))
        return OpF(t) if isreal else E.atom(t, (None, None), False)
    return Poison(str(cell))


def binders_outer(self, key):
    return [b for l in self.loopstack if l.key != key for b in l.binders]
core.Engine.binders_outer = binders_outer


def _key(E):
    E.loopcount += 1
    key = (tuple(E.trace), E.loopcount, tuple(l.ident for l in E.loopstack))
    if key not in E.key_ids: E.key_ids[key] = len(E.key_ids) + 1
    return key


def acc_value(E, cell, kid, key, binders):
    """a counter at the beginning of an iteration of a loop over a set: some number"""
    bs = E.binders_outer(key) + list(binders)
    return E.atom(z3.Function('A_%d_%s' % (kid, '_'.join(str(x) for x in cell)), *([b.sort() for b in bs] + [z3.IntSort()]))(*bs), (None, None), False)


def total(normals, bs, c, v0, step=lambda r, c: r['after'].get(c)):
    """v0 plus the increments of all iterations: per path, the increment times the number of iterations that take it"""
    for r in normals:
        d = step(r, c)
        if d: v0 = v0 + Seg(None, list(bs), r['guard'], None).count() * d
    return v0


def _read_cell(E, cell, locs):
    if cell[0] == 'len': return UNB
    if cell[0] == 'attr':
        o = E.by_serial[cell[1]]
        return getattr(o, cell[2], UNB)
    return locs[cell][0]()


def _write_cell(E, cell, locs, v, raw=False):
    if cell[0] == 'attr':
        o = E.by_serial[cell[1]]
        if raw: object.__setattr__(o, cell[2], v)
        else: setattr_(o, cell[2], v)
    else: locs[cell][1](v)


def generic(seg, body, cells):
    E = core.ENG
    key = _key(E)
    locs = {}
    for (c, g, s) in cell_list(E, cells): locs.setdefault(c, (g, s))
    ch = E.frame.chain
    if E.entered < len(ch) and ch[E.entered].key == key:
        fr = ch[E.entered]
        E.entered += 1
        body_mode(E, seg, body, locs, key, fr)
    if key not in E.summaries:
        raise NeedSummary(key, list(E.trace))
    return apply_summary(E, seg, body, locs, key, E.summaries[key])


def body_mode(E, seg, body, locs, key, fr):
    kid = E.key_ids[key]
    ctx = LoopCtx()
    ctx.key = key; ctx.ident = kid; ctx.frame = fr
    ctx.binders = [z3.Int('i!%d_%s' % (kid, chr(97 + j))) for j in range(len(seg.binders))]
    ctx.effects = []; ctx.reads = []; ctx.lens = {}; ctx.whole = set()
    ctx.lo, ctx.hi = seg.lo, seg.hi
    E.loopstack.append(ctx)
    pc0 = len(E.pc)
    t0 = len(E.trace)
    E.add_pc(seg.guard_at(ctx.binders))
    for b, ob in zip(ctx.binders, seg.binders):
        E.atom_bounds.setdefault(b.get_id(), E.atom_bounds.get(ob.get_id(), (None, None)))
        E.atom_keep[b.get_id()] = b
    elem = seg.at(ctx.binders)
    orig = {}
    start = {}
    single = seg.lo is not None
    if single and E.opts.get('cursor'):      # positions in the input file at the start of a repetition
        at = E.opts['cursor'].at_star
        def cand(v): return not isinstance(v, Poison) and isinstance(v, (Num, int)) and not isinstance(v, bool) and at(v)
        for c in locs:
            if c not in fr.carried and cand(_read_cell(E, c, locs)): fr.carried[c] = None
        for n, o in enumerate(E.by_serial):
            if isinstance(o, VCBase) and E.births[id(o)][1] < len(E.loopstack):
                for a, v in o.__dict__.items():
                    if ('attr', n, a) not in fr.carried and cand(v): fr.carried[('attr', n, a)] = None
    # cells of locals
    allcells = list(locs) + [c for c in fr.carried if c[0] == 'attr']
    for c in allcells:
        orig[c] = _read_cell(E, c, locs)
        mode = fr.carried.get(c, UNB)
        if mode is UNB: continue
        if mode is None:      # decide the mode now
            v0 = orig[c]
            if isinstance(v0, Poison): mode = ('poison',)
            elif single and E.opts.get('cursor') and isinstance(v0, (Num, int)) and E.opts['cursor'].at_star(v0): mode = ('cursor',)
            elif single and isinstance(v0, (Num, int)) and not isinstance(v0, bool): mode = ('num', 'int')
            elif single and isinstance(v0, (float, OpF)): mode = ('num', 'real')
            elif E.opts.get('count_equiv') and isinstance(v0, (Num, int)) and not isinstance(v0, bool): mode = ('acc',)
            else: mode = ('poison',)
            fr.carried[c] = mode
        if orig[c] is UNB and mode[0] != 'poison': mode = fr.carried[c] = ('poison',)
        if orig[c] is UNB: continue
        if mode[0] == 'acc': v = acc_value(E, c, kid, key, ctx.binders)
        else: v = carried_value(E, c, orig[c], mode, kid, key, ctx.binders[0], seg.lo) if mode[0] != 'poison' else Poison(str(c))
        if mode[0] == 'cursor' and v is None:
            mode = fr.carried[c] = ('num', 'int')
            v = carried_value(E, c, orig[c], mode, kid, key, ctx.binders[0], seg.lo)
        start[c] = v
        _write_cell(E, c, locs, v, raw=True)
    outcome = 'normal'
    try:
        r = body(elem)
        if r is not None: outcome = 'signal'
    except GenStop: outcome = 'signal'
    except Ctl: raise
    except Exception as ex:
        if isinstance(ex, (TypeError, AttributeError, NameError, RecursionError)) and E.opts.get('strict_types', True):
            raise Unsupported('in loop body: %s: %s' % (type(ex).__name__, ex))
        outcome = 'raise'
    if fr is not E.frame: raise Unsupported('inner loop not reached on replay')
    pcs = [p for p in E.pc[pc0:] if p.get_id() not in E.facts]
    rec = {'births': E.births, 'depth': len(E.loopstack), 'pcs': pcs, 'facts': [p.get_id() for p in E.pc[pc0:] if p.get_id() in E.facts], 'guard': z3.And(pcs) if pcs else z3.BoolVal(True), 'effects': ctx.effects, 'outcome': outcome,
           'suffix': E.trace[t0:], 'kinds': E.kinds[t0:], 'after': {}, 'reads': ctx.reads,
           'atoms': [(i, E.atom_keep[i], b) for i, b in E.atom_bounds.items() if i in E.atom_keep]}
    for lk, (ref, d) in ctx.lens.items():
        if outcome == 'normal':
            n = appended(E, ctx, ref)
            if n == 0 and isinstance(n, int) and d == 0: continue
            if ('len', lk) in fr.carried:
                eq = sym_eq(n, d)
                if eq is True or isinstance(eq, SymBool) and E.entails(eq.e): continue
                raise Unsupported('length of a list that grows irregularly')
            if isinstance(n, Num) and mentions(n, ctx.binders): raise Unsupported('length of a list that grows irregularly')
            fr.carried[('len', lk)] = ('len', n)
            raise RestartFrame(key)
    if outcome == 'normal':
        for c in allcells:
            now = _read_cell(E, c, locs)
            if c not in fr.carried:
                if orig[c] is UNB:
                    continue          # becomes bound in the loop: poison afterwards
                if now is not orig[c]:
                    fr.carried[c] = None
                    raise RestartFrame(key)
            else:
                mode = fr.carried[c]
                if mode[0] == 'poison':
                    if c in start and now is not start[c]: rec['after'][c] = now
                    continue
                st = start[c]
                if mode[0] == 'acc':
                    d = now - st if isinstance(now, Num) else None
                    if not isinstance(d, int):
                        fr.carried[c] = ('poison',)
                        raise RestartFrame(key)
                    rec['after'][c] = d
                    continue
                if mode[0] == 'cursor':
                    if isinstance(now, (Num, int)) and E.opts['cursor'].iteration_done(E.opts['cursor'].at_star(orig[c]), num(E.atom(ctx.binders[0], (None, None), False) - seg.lo).z(), now): continue
                    fr.carried[c] = ('num', 'int')
                    raise RestartFrame(key)
                if mode[0] == 'num' and mode[1] == 'int' and isinstance(now, (Num, int)):
                    if not mode[2:]:
                        d = now - st
                        if isinstance(d, int) or (isinstance(d, Num) and not mentions(d, ctx.binders) and not _has_sfun(d)):
                            fr.carried[c] = ('affine', d)
                            raise RestartFrame(key)
                    rec['after'][c] = now
                elif mode[0] == 'num' and isinstance(now, (Num, OpF, int, float)):
                    rec['after'][c] = OpF.of(now) if mode[1] == 'real' else now
                elif mode[0] == 'affine':
                    want = orig[c] + (E.atom(ctx.binders[0], (None, None), False) + 1 - seg.lo) * mode[1]
                    eq = sym_eq(now, want)
                    if eq is not True and not (isinstance(eq, SymBool) and E.entails(eq.e)):
                        fr.carried[c] = ('num', 'int', 'noaffine')
                        raise RestartFrame(key)
                else:
                    fr.carried[c] = ('poison',)
                    raise RestartFrame(key)
    fr.done.append(rec)
    raise BodyDone()


def _has_sfun(d):
    return any('S_' in str(a) for (a, k) in d.t.values())


def mentions(n, binders):
    ids = {b.get_id() for b in binders}
    for (a, k) in n.t.values():
        for c in free_consts(a):
            if c.get_id() in ids: return True
    return False


def merge_discards(summ):
    """'if k in d: del d[k]' has the effect of an unconditional removal: the path on which k is absent (and the removal is
    skipped) is merged with the path that removes k - removing an absent key is a no-op - and the membership read disappears"""
    if getattr(summ, 'merged', False): return
    summ.merged = True
    done = summ.done
    again = True
    while again:
        again = False
        for A in done:
            if A['outcome'] != 'normal' or 'pcs' not in A: continue
            for di, (oser, kind, data, ebs, eg) in enumerate(A['effects']):
                if kind != 'del' or ebs or eg: continue
                memb = [r for r in A['reads'] if r[0] == oser and not r[4] and r[1][0] == data[0][0] and all(z3.simplify(a).eq(z3.simplify(b)) for a, b in zip(r[1][1], data[0][1]))]
                if not memb: continue
                for B in done:
                    if B is A or B['outcome'] != 'normal' or 'pcs' not in B: continue
                    rest = A['effects'][:di] + A['effects'][di + 1:]
                    if not same_effects(rest, B['effects']) or A['after'] or B['after']: continue
                    pa, pb = uniq(A['pcs']), uniq(B['pcs'])
                    if len(pa) != len(pb): continue
                    dif = [i for i, (p, q) in enumerate(zip(pa, pb)) if not p.eq(q)]
                    if len(dif) != 1: continue
                    i = dif[0]
                    if not pb[i].eq(z3.Not(pa[i])): continue
                    if not any(r[5] is not None and r[5].eq(pa[i]) for r in memb): continue
                    A['pcs'] = pa[:i] + pa[i + 1:]
                    A['guard'] = z3.And(A['pcs']) if A['pcs'] else z3.BoolVal(True)
                    ids = {id(r) for r in memb}
                    A['reads'] = [r for r in A['reads'] if id(r) not in ids]
                    done.remove(B)
                    again = True
                    break
                if again: break
            if again: break


def uniq(ps):
    seen, out = set(), []
    for p in ps:
        if p.get_id() not in seen: seen.add(p.get_id()); out.append(p)
    return out


def same_effects(xs, ys):
    if len(xs) != len(ys): return False
    for (o, k, d, b, g), (o2, k2, d2, b2, g2) in zip(xs, ys):
        if o != o2 or k != k2 or b or b2 or g or g2: return False
        if k not in ('put', 'del'): return False
        for p, q in zip(d, d2):
            p = list(p[1]) if isinstance(p, tuple) else list(p); q = list(q[1]) if isinstance(q, tuple) else list(q)
            if len(p) != len(q) or not all(a.eq(b) for a, b in zip(p, q)): return False
    return True


def plain_value(v):
    if isinstance(v, tuple): return all(plain_value(x) for x in v)
    return type(v) in (Num, OpF, SymBool, Opaque, int, float, str, bytes, bool, type(None))


def latch(E, seg, cell, v0, normals, bs, rng, upto):
    """a variable that is assigned in some iterations and never read in the loop: after the iterations rng it holds the value of the
    last iteration that assigned it, or its old value"""
    recs = [r for r in normals if cell in r['after']]
    if seg.lo is None or not all(plain_value(r['after'][cell]) for r in recs): return Poison('after loop: %s' % (cell,))
    if not recs: return v0
    sets = z3.And(rng, z3.Or([r['guard'] for r in recs]))
    k = E.choose(1 + len(recs), 'last assignment')
    if k == 0:
        E.assume(z3.ForAll(bs, z3.Not(sets)))
        return v0
    t = E.const('last', z3.IntSort())
    E.atom_keep[t.get_id()] = t; E.atom_bounds[t.get_id()] = E.atom_bounds.get(seg.binders[0].get_id(), (None, None))
    E.add_pc(z3.substitute(z3.And(rng, recs[k - 1]['guard']), (bs[0], t)))
    E.assume(z3.ForAll(bs, z3.Implies(bs[0] > t, z3.Not(sets))))
    return subst_obj(recs[k - 1]['after'][cell], [(bs[0], t)])


def apply_summary(E, seg, body, locs, key, summ):
    merge_discards(summ)
    kid = E.key_ids[key]
    bs = [z3.Int('i!%d_%s' % (kid, chr(97 + j))) for j in range(len(seg.binders))]
    normals = [r for r in summ.done if r['outcome'] == 'normal']
    abn = [r for r in summ.done if r['outcome'] != 'normal']
    single = seg.lo is not None
    rng = seg.guard_at(bs)
    k = E.choose(1 + len(abn), 'loop exit') if abn else 0
    v0 = {c: _read_cell(E, c, locs) for c in summ.carried}
    for r in summ.done:
        for (i, t, b) in r['atoms']:
            if i not in E.atom_bounds:
                E.atom_bounds[i] = b; E.atom_keep[i] = t
    validate_reads(E, summ, bs, rng)
    done = set()
    for r in summ.done:
        for i in r['facts']:
            if i not in done:
                done.add(i)
                f = E.facts[i][1]
                E.facts.setdefault(f.get_id(), (f, f))
                E.add_pc(f)
    # recurrences of carried numeric cells
    def recur():
        for c, mode in summ.carried.items():
            if not mode or mode[0] != 'num' or v0[c] is UNB: continue
            lo = num(seg.lo).z()
            s0 = carried_value(E, c, v0[c], mode, kid, key, lo, seg.lo)
            E.define(_eqz(s0, v0[c]))
            for r in normals:
                if c in r['after']:
                    s1 = carried_value(E, c, v0[c], mode, kid, key, bs[0] + 1, seg.lo)
                    E.define(z3.ForAll(bs, z3.Implies(r['guard'], _eqz(s1, r['after'][c]))))
    def recur_at(t):
        """explicit instance of the recurrences at iteration t"""
        for c, mode in summ.carried.items():
            if not mode or mode[0] != 'num' or v0[c] is UNB: continue
            for r in normals:
                if c in r['after']:
                    s1 = carried_value(E, c, v0[c], mode, kid, key, t + 1, seg.lo)
                    E.define(z3.substitute(z3.Implies(r['guard'], _eqz(carried_value(E, c, v0[c], mode, kid, key, bs[0] + 1, seg.lo), r['after'][c])), (bs[0], t)))
    if k == 0:
        if abn:
            none = z3.Implies(rng, z3.And(z3.Not(z3.Or([r['guard'] for r in abn])), z3.Or([r['guard'] for r in normals]) if E.opts.get('normal_cases') else z3.BoolVal(True)))
            if single and type(seg.lo) is int and type(seg.hi) is int and seg.hi - seg.lo <= 8: E.assume(z3.And([z3.substitute(none, (bs[0], z3.IntVal(v))) for v in range(seg.lo, seg.hi)]))
            else: E.assume(z3.ForAll(bs, none))
        push_effects(E, normals, bs, None, seg)
        recur()
        for c, mode in summ.carried.items():
            if v0[c] is UNB: continue
            if mode and mode[0] == 'cursor':
                st = E.opts['cursor'].at_star(v0[c])
                eq = sym_eq(st[2].n, seg.count())
                if not builtins.bool(eq):
                    if not builtins.bool(seg.count() < st[2].n): raise Unsupported('a loop reads more records than are stored')
                    _write_cell(E, c, locs, E.opts['cursor'].pos(st, num(seg.count()).z()))
                    continue
                _write_cell(E, c, locs, E.opts['cursor'].pos(st, None, True))
            elif mode and mode[0] == 'acc': _write_cell(E, c, locs, total(normals, bs, c, v0[c]))
            elif mode and mode[0] in ('num', 'affine'):
                hi = num(seg.hi)
                n = seg.count()
                end = num(n + seg.lo).z()
                if mode[0] == 'affine': val = v0[c] + n * mode[1]
                else: val = carried_value(E, c, v0[c], mode, kid, key, end, seg.lo)
                _write_cell(E, c, locs, val)
                if mode[0] == 'num': recur_at(end - 1)
                if mode[0] == 'num' and mode[1] == 'int' and E.opts.get('count_equiv'):
                    st = carried_value(E, c, v0[c], mode, kid, key, bs[0], seg.lo)
                    ds = {id(r): num(r['after'][c]) - st for r in normals if c in r['after']}
                    if len(ds) == len(normals) and all(isinstance(d, int) for d in ds.values()): E.define(_eqz(val, total(normals, bs, c, v0[c], lambda r, c: ds[id(r)])))
            else: _write_cell(E, c, locs, latch(E, seg, c, v0[c], normals, bs, rng, None))
        for c, (g, s) in locs.items():
            if c not in summ.carried and g() is UNB: s(Poison('set in loop: %s' % (c,)))
        return None
    r = abn[k - 1]
    ts = [E.const('it', z3.IntSort()) for _ in bs]
    for t, b in zip(ts, seg.binders): E.atom_bounds[t.get_id()] = E.atom_bounds.get(b.get_id(), (None, None)); E.atom_keep[t.get_id()] = t
    E.add_pc(seg.guard_at(ts))
    if single:
        prev = z3.And(rng, bs[0] < ts[0])
        E.add_pc(z3.ForAll(bs, z3.Implies(prev, z3.Not(z3.Or([a['guard'] for a in abn])))))
        # instance: the iteration just before
        E.add_pc(z3.Implies(num(seg.lo).z() <= ts[0] - 1, z3.Not(z3.Or([z3.substitute(a['guard'], (bs[0], ts[0] - 1)) for a in abn]))))
    else:
        nm = E.fname('before')
        outer = E.binders()
        f = z3.Function(nm, *([b.sort() for b in outer + bs] + [z3.BoolSort()]))
        prev = z3.And(rng, f(*(outer + bs)))
    push_effects(E, normals, bs, prev, None)
    recur()
    if single: recur_at(ts[0] - 1)
    for c, mode in summ.carried.items():
        if v0[c] is UNB: continue
        if mode and mode[0] in ('num', 'affine', 'cursor'):
            _write_cell(E, c, locs, carried_value(E, c, v0[c], mode, kid, key, ts[0], seg.lo))
        else: _write_cell(E, c, locs, latch(E, seg, c, v0[c], normals, bs, prev, ts[0]))
    if E.pos >= len(E.script) and E.entered >= len(E.frame.chain):      # (on the way into the body of an inner loop nothing is replayed)
        E.script = E.script + list(r['suffix'])
    n0 = E.pos
    sig = body(seg.at(ts))
    if E.kinds[n0:n0 + len(r['kinds'])] != r['kinds'][:len(E.kinds) - n0] or sig is not None and len(E.kinds) - n0 < len(r['kinds']):
        raise Unsupported('loop exit not reproduced')
    if sig is None:
        raise Unsupported('abnormal loop exit not reproduced')
    return sig


def _eqz(a, b):
    a_, b_ = a, b
    if isinstance(a, OpF) or isinstance(b, OpF):
        return OpF.of(a).e == OpF.of(b).e
    return num(a).z() == num(b).z()


def push_effects(E, paths, bs, extra, seg):
    per = {}
    order = []
    bypath = {}
    for p in paths:
        for (obj, kind, data, ebs, eg) in p['effects']:
            # re-bind the object: identified by creation serial (stable across runs)
            o = obj_of(E, obj)
            if hasattr(o, 'vc_apply_paths'):
                if id(o) not in bypath: bypath[id(o)] = (o, {})
                bypath[id(o)][1].setdefault(id(p), []).append((kind, rebind(E, data, p), list(ebs), eg))
                continue
            data = rebind(E, data, p)
            g = p['guard'] if not eg else z3.And(p['guard'], *[x for (x, _) in eg])
            if extra is not None: g = z3.And(extra, g)
            full = None
            if seg is not None and seg.lo is not None and len(paths) == 1 and not eg and p.get('total', True) and _is_total(E, p, bs, seg):
                full = (seg.lo, seg.hi)
            if id(o) not in per:
                per[id(o)] = (o, []); order.append(id(o))
            per[id(o)][1].append((kind, data, list(bs) + list(ebs), g, full))
    for o, d in bypath.values():
        o.vc_apply_paths([(p['guard'], d.get(id(p), [])) for p in paths], bs, seg, extra)
    for i in order:
        o, effs = per[i]
        if E.opts.get('ordered') and isinstance(o, TList) and len(paths) > 1 and extra is None and seg is not None and seg.lo is not None and len(effs) == len(paths) \
                and all(k == 'append' and len(b) == len(bs) for k, d, b, g, f in effs) and all(sum(obj_of(E, e[0]) is o for e in p['effects']) == 1 and not any(e[4] for e in p['effects'] if obj_of(E, e[0]) is o) for p in paths):
            effs = [('append', AltPick([(g, d) for k, d, b, g, f in effs]), list(bs), seg.guard_at(bs), (seg.lo, seg.hi))]
        o.apply_effects(effs)


def has_objects(d):
    if isinstance(d, tuple): return any(has_objects(x) for x in d)
    return isinstance(d, (VCBase, list, dict))


_NOPAIR = None
def rebind(E, data, rec):
    """replace objects that existed before the loop by the objects of the current run (same creation serial)"""
    births = rec.get('births')
    if births is None or births is E.births or not has_objects(data): return data
    global _NOPAIR
    if _NOPAIR is None: _NOPAIR = [(z3.Int('no!var'), z3.Int('no!var2'))]
    memo = {k: (E.by_serial[s], o) for k, (o, d, s) in births.items() if d < rec['depth'] and s < len(E.by_serial) and type(E.by_serial[s]) is type(o)}
    return subst_obj(data, _NOPAIR, memo)


def _is_total(E, p, bs, seg):
    """the only body path covers every iteration and appends exactly once"""
    objs = [e[0] if isinstance(e[0], int) else id(e[0]) for e in p['effects']]
    return len(set(objs)) == len(objs)


def ref_of(E, obj):
    """creation serial: the same object in every run that shares the prefix"""
    b = E.births.get(id(obj))
    return obj if b is None else b[2]


def obj_of(E, ref):
    return E.by_serial[ref] if isinstance(ref, int) else ref


def validate_reads(E, summ, bs, rng):
    """reads of a container that the same loop writes: no other iteration writes what this one reads"""
    writes = {}
    for p in summ.done:
        for (obj, kind, data, ebs, eg) in p['effects']:
            writes.setdefault(obj if isinstance(obj, int) else id(obj), []).append((kind, data, ebs, z3.And(p['guard'], *[x for (x, _) in eg])))
    for p in summ.done:
        for (oser, kt, rbs, rg, whole, memb) in p['reads']:
            if E.loopstack:      # the read also belongs to the enclosing loop's iteration
                E.loopstack[-1].reads.append((oser, kt, list(rbs) + list(bs), z3.And(rng, rg), whole, None))
            if oser not in writes: continue
            if whole: raise Unsupported('whole-container read of a container modified in the same loop')
            for (kind, data, ebs, g) in writes[oser]:
                if kind not in ('put', 'del'): raise Unsupported('read of container under %s in the same loop' % kind)
                wk = data[0]
                if wk[0] != kt[0]: continue
                bs2 = [z3.Int(str(b) + 'p') for b in bs]
                ebs2 = [z3.Int(str(b) + 'q') for b in ebs]
                sub = list(zip(bs, bs2)) + list(zip(ebs, ebs2))
                wkt = [z3.substitute(t, *sub) for t in wk[1]]
                g2 = z3.substitute(g, *sub)
                clash = z3.And(rg, g2, z3.Or([a != b for a, b in zip(bs, bs2)]), *[a == b for a, b in zip(kt[1], wkt)])
                st = E._sat(clash)
                if st != 'unsat': raise Unsupported('iterations of a loop may interfere')


def obj_serial(E, o):
    b = E.births.get(id(o))
    return b[2] if b else id(o)

# ------------------------------------------------------------------ dict / set

class TDictView(SeqBase):
    def __init__(self, d, kind): self.d = d; self.kind = kind
    def get_segs(self):
        d = self.d
        whole_read(d)
        if not d.sym:
            its = {'k': dict.keys, 'v': dict.values, 'i': dict.items}[self.kind](d)
            return [Seg(items=set_order(list(its)) if isinstance(d, TSet) else list(its))]
        segs = d.view_segs(self.kind)
        h = core.ENG.opts.get('effects') if isinstance(d, TSet) else None
        if h:
            for s in segs: h.set_order([s.elem] if s.items is None else list(s.items))
        return segs
    def __iter__(self):
        d = self.d
        whole_read(d)
        if d.sym: raise Unsupported('C iteration over symbolic dict')
        return iter({'k': dict.keys, 'v': dict.values, 'i': dict.items}[self.kind](d))
    def __contains__(self, k):
        if self.kind == 'k': return k in self.d
        raise Unsupported('in values/items')
    def __len__(self): return len(self.d)
    def vc_len(self): return self.d.vc_len()
    def __eq__(self, o): raise Unsupported('dict view equality')
    __hash__ = None


class TDict(dict):
    """dict with symbolic layers.  Once symbolic, content = base + layers."""
    def __init__(self, *a, **k):
        self.sym = False
        self.layers = []
        self.base = None       # fn(kind, terms) -> (present z3 Bool, [value terms])
        self.codec = None
        self.kind = None
        stamp(self)
        if a:
            it = a[0]
            if isinstance(it, TDict): self._copy_from(it)
            elif isinstance(it, dict):
                for x, y in it.items(): self[x] = y
            else:
                def add(p):
                    self[p[0]] = p[1]
                vc_for(it, add, None)
        for x, y in k.items(): self[x] = y
    def _copy_from(self, d):
        if d.sym:
            self.sym = True; self.layers = list(d.layers); self.base = d.base; self.codec = d.codec; self.kind = d.kind
            self.base_count = d.__dict__.get('base_count')
        else:
            for x, y in dict.items(d): dict.__setitem__(self, x, y)
    # symbolic state
    def make_sym(self):
        if self.sym: return
        self.sym = True
        for k, v in dict.items(self):
            kt = keyterms(k)
            self.kind = self.kind or kt[0]
            self.layers.append(('put', kt, self.enc(v)))
        dict.clear(self)
    def enc(self, v):
        if self.codec: return self.codec.enc(v)
        return [core.ENG.intern_id(v)]
    def dec(self, ts):
        if self.codec: return self.codec.dec(ts)
        t = core.ENG.settle(ts[0])
        o = core.ENG.object_of(t)
        if o is not None: return o[0]
        return Opaque(ts[0], 'value')
    def nvals(self): return self.codec.sorts() if self.codec else [z3.IntSort()]
    def lookup(self, kt):
        kind, k = kt
        if self.kind is not None and kind != self.kind:
            raise Unsupported('key of kind %r in a dict keyed by %r' % (kind, self.kind))
        if self.base is not None: P, V = self.base(k)
        else:
            P = z3.BoolVal(False)
            V = [z3.IntVal(-1) if s == z3.IntSort() else z3.FreshConst(s) for s in self.nvals()]
        for L in self.layers:
            if L[0] == 'put':
                eq = z3.simplify(z3.And([a == b for a, b in zip(k, L[1][1])]))
                P = z3.Or(eq, P); V = [z3.If(eq, a, b) for a, b in zip(L[2], V)]
            elif L[0] == 'del':
                eq = z3.simplify(z3.And([a == b for a, b in zip(k, L[1][1])]))
                P = z3.And(z3.Not(eq), P)
            elif L[0] == 'bulk':
                P, V = self._bulk(L, k, P, V)
            elif L[0] == 'clear':
                P = z3.BoolVal(False)
            P = z3.simplify(P)
        return P, V
    def _bulk(self, L, k, P, V):
        E = core.ENG
        effs = L[1]
        hits = []
        uni = None
        puts = dels = 0
        for (kind, data, bs, g) in effs:
            kt = data[0]
            h = z3.And(g, *[a == b for a, b in zip(k, kt[1])])
            hits.append(elim_exists(bs, h))
            if kind == 'put':
                puts += 1
                v = data[1]
                ids = {b.get_id() for b in bs}
                dep = any(c.get_id() in ids for t in v for c in free_consts(t))
                if dep: uni = False
                elif uni is None: uni = v
                elif uni is not False and not all(a.eq(b) for a, b in zip(uni, v)): uni = False
            else: dels += 1
        H = z3.Or(hits) if len(hits) > 1 else hits[0]
        if puts and not dels and uni is not False and uni is not None:
            return z3.Or(H, P), [z3.If(H, a, b) for a, b in zip(uni, V)]
        if dels and not puts:
            return z3.And(z3.Not(H), P), V
        outer, nm = L[2], L[3]
        args = list(outer) + list(k)
        fP = z3.Function(nm + '_p', *([a.sort() for a in args] + [z3.BoolSort()]))
        P2 = fP(*args)
        V2 = []
        for j, s in enumerate(self.nvals()):
            V2.append(z3.Function('%s_v%d' % (nm, j), *([a.sort() for a in args] + [s]))(*args))
        E.define(z3.Implies(z3.Not(H), z3.And(P2 == P, *[a == b for a, b in zip(V2, V)])))
        alts = []
        for (kind, data, bs, g) in effs:
            c = [g] + [a == b for a, b in zip(k, data[0][1])]
            if kind == 'put': c += [P2] + [a == b for a, b in zip(V2, data[1])]
            else: c += [z3.Not(P2)]
            alts.append(elim_exists(bs, z3.And(c)))
        E.define(z3.Implies(H, z3.Or(alts)))
        return P2, V2
    def _read(self, kt, whole=False, memb=None):
        E = core.ENG
        if E.loopstack:
            for i, l in enumerate(E.loopstack):
                pass
            l = E.loopstack[-1]
            b = E.births.get(id(self))
            if b is None or b[1] < len(E.loopstack):
                l.reads.append((obj_serial(E, self), kt, [], z3.And(E.pc) if E.pc else z3.BoolVal(True), whole, memb))
    def _cread(self, k):
        """read under a constant key"""
        E = core.ENG
        if E is not None and E.loopstack and is_outer(self):
            try: kt = keyterms(k)
            except Unsupported: whole_read(self)
            else: self._read(kt)
    def _write(self, kind, data):
        E = core.ENG
        if E.loopstack and is_outer(self):
            E.loopstack[-1].effects.append((ref_of(E, self), kind, data, [], []))
        self.layers.append((kind,) + tuple(data))
    def apply_effects(self, effs):
        E = core.ENG
        self.make_sym()
        if E.loopstack and is_outer(self):
            for (kind, data, bs, g, full) in effs:
                E.loopstack[-1].effects.append((ref_of(E, self), kind, data, list(bs), [(g, None)]))
        for (kind, data, bs, g, full) in effs:
            self.kind = self.kind or data[0][0]
            if data[0][0] != self.kind: raise Unsupported('mixed key kinds')
        self.layers.append(('bulk', [(k, d, b, g) for (k, d, b, g, f) in effs], E.binders(), E.fname('bulk')))
    # python protocol
    def __setitem__(self, k, v):
        E = core.ENG
        if E is None: return dict.__setitem__(self, k, v)
        if not self.sym and not is_sym(k) and not (E.loopstack and is_outer(self)):
            dict.__setitem__(self, k, v); return
        self.make_sym()
        kt = keyterms(k)
        self.kind = self.kind or kt[0]
        if kt[0] != self.kind: raise Unsupported('mixed key kinds %r %r' % (kt[0], self.kind))
        self._write('put', (kt, self.enc(v)))
    def contains_f(self, k):
        if core.ENG is None or (not self.sym and not is_sym(k)):
            self._cread(k)
            return dict.__contains__(self, k)
        if not self.sym and not len(dict.keys(self)): return False
        self.make_sym()
        kt = keyterms(k)
        P, V = self.lookup(kt)
        self._read(kt, memb=P)
        return SymBool.mk(P)
    def __contains__(self, k):
        return builtins.bool(self.contains_f(k))
    def __getitem__(self, k):
        if core.ENG is None or (not self.sym and not is_sym(k)):
            self._cread(k)
            return dict.__getitem__(self, k)
        if not (k in self): raise KeyError(k)
        P, V = self.lookup(keyterms(k))
        return self.dec(V)
    def get(self, k, d=None):
        if core.ENG is None or (not self.sym and not is_sym(k)):
            self._cread(k)
            return dict.get(self, k, d)
        return self[k] if k in self else d
    def __delitem__(self, k):
        E = core.ENG
        if E is None or (not self.sym and not is_sym(k) and not (E.loopstack and is_outer(self))): return dict.__delitem__(self, k)
        if not (k in self): raise KeyError(k)
        self._write('del', (keyterms(k),))
    def pop(self, k, *d):
        if core.ENG is None or (not self.sym and not is_sym(k)): return dict.pop(self, k, *d)
        if k in self:
            v = self[k]; del self[k]; return v
        if d: return d[0]
        raise KeyError(k)
    def setdefault(self, k, d=None):
        if k in self: return self[k]
        self[k] = d
        return d
    def update(self, o=(), **kw):
        if isinstance(o, TDict) and (o.sym or self.sym):
            self.make_sym()
            if o.sym:
                if o.base is not None: raise Unsupported('update from arbitrary dict')
                for L in o.layers:
                    if L[0] == 'put': self._put_terms(L[1], L[2], o)
                    elif L[0] == 'bulk':
                        effs = [(k, (d[0], self.recode(d[1], o)) if k == 'put' else d, b, g, None) for (k, d, b, g) in L[1]]
                        self.apply_effects(effs)
                    else: raise Unsupported('update')
            else:
                for k, v in dict.items(o): self[k] = v
        elif isinstance(o, dict):
            for k in o: self[k] = o[k]
        else:
            def add(p): self[p[0]] = p[1]
            vc_for(o, add, None)
        for k, v in kw.items(): self[k] = v
    def recode(self, ts, o):
        if (self.codec is None) == (o.codec is None) and self.codec is o.codec: return ts
        return self.enc(o.dec(ts))
    def _put_terms(self, kt, ts, o):
        self.kind = self.kind or kt[0]
        self._write('put', (kt, self.recode(ts, o)))
    def clear(self):
        if self.sym or (core.ENG is not None and core.ENG.loopstack): raise Unsupported('clear of symbolic dict')
        dict.clear(self)
    def keys(self): return TDictView(self, 'k')
    def values(self): return TDictView(self, 'v')
    def items(self): return TDictView(self, 'i')
    def __iter__(self):
        whole_read(self)
        if self.sym: raise Unsupported('C iteration over symbolic dict')
        return dict.__iter__(self)
    def vc_len(self):
        whole_read(self)
        if not self.sym: return dict.__len__(self)
        if self.__dict__.get('base_count') is not None and all(L[0] in ('put', 'del') for L in self.layers):
            n, ls = self.base_count, self.layers
            try:
                for j in range(len(ls)):
                    self.layers = ls[:j]
                    P = SymBool.mk(self.lookup(ls[j][1])[0])
                    n = n + (core.ite_num(P, 0, 1) if ls[j][0] == 'put' else -core.ite_num(P, 1, 0))
            finally: self.layers = ls
            return n
        return self.view_segs(None)[0].count() if self.kind is not None else 0
    def __len__(self):
        n = self.vc_len()
        if isinstance(n, Num): raise Unsupported('len of symbolic dict')
        return n
    def __bool__(self): return builtins.bool(self.vc_len() != 0)
    def view_segs(self, what):
        if self.kind is None: return [Seg(items=[])]
        n = nterms(self.kind)
        bs = newbinders(n)
        for b in bs: core.ENG.atom_bounds[b.get_id()] = self.__dict__.get('kbounds', (None, None)); core.ENG.atom_keep[b.get_id()] = b
        # keys are integral here: half-grid component = 2*binder
        ks = [2 * b for b in bs] if scaled(self.kind) else list(bs)
        self._read((self.kind, ks), True)
        P, V = self.lookup((self.kind, ks))
        if what is None: return [Seg(None, bs, P, None)]
        key = self.mkkey(bs)
        el = {'k': key, 'v': None, 'i': None}[what]
        if what != 'k':
            v = self.dec(V)
            el = v if what == 'v' else (key, v)
        return [Seg(None, bs, P, el)]
    def mkkey(self, bs):
        mk = self.__dict__.get('keymaker')
        if mk: return mk(bs)
        if isinstance(self.kind, tuple) and all(k == 'n' for k in self.kind[1:]):
            return tuple(core.ENG.atom(b, core.ENG.atom_bounds.get(b.get_id(), (None, None)), False) for b in bs)
        if self.kind in ('CoarseVector', 'FineVector', 'BaseVector'):
            import sys
            return getattr(sys.modules['redeclipse.vector'], self.kind)(*[core.ENG.atom(b, core.ENG.atom_bounds.get(b.get_id(), (None, None)), False) for b in bs])
        if self.kind == 'o': return Opaque(bs[0], 'key')
        if self.kind == 'n': return core.ENG.atom(bs[0], (None, None), False)
        raise Unsupported('iteration over keys of kind %r' % (self.kind,))
    def __eq__(self, o):
        if self.sym: raise Unsupported('dict equality')
        return dict.__eq__(self, o)
    __hash__ = None
    def copy(self):
        return TDict(self)
    def __deepcopy__(self, memo):
        if self.sym: return TDict(self)
        return TDict([(k, _copy.deepcopy(v, memo)) for k, v in dict.items(self)])
    def __reduce_ex__(self, p): raise Unsupported('pickle')


def nterms(kind):
    if isinstance(kind, tuple): return sum(nterms(k) for k in kind[1:])
    if kind in ('CoarseVector', 'FineVector', 'BaseVector'): return 3
    return 1


def scaled(kind):
    if isinstance(kind, tuple): return all(scaled(k) for k in kind[1:])
    return kind in ('n', 'CoarseVector', 'FineVector', 'BaseVector')


def elim_exists(bs, body):
    return core.exists(bs, body)


class TSet(TDict):
    def __init__(self, it=()):
        TDict.__init__(self)
        if isinstance(it, TSet): self._copy_from(it)
        else:
            def add(v): self.add(v)
            vc_for(it, add, None)
    def add(self, v): self[v] = True
    def enc(self, v): return [z3.IntVal(1)]
    def dec(self, ts): return True
    def discard(self, v):
        if v in self: del self[v]
    remove = TDict.__delitem__
    def update(self, *its):
        for it in its:
            if isinstance(it, TSet): TDict.update(self, it)
            else: vc_for(it, self.add, None)
    def union(self, *its):
        r = TSet(self)
        r.update(*its)
        return r
    __or__ = union
    def __ior__(self, o):
        self.update(o); return self
    def isdisjoint(self, o):
        out = []
        if not isinstance(o, SeqBase) and not isinstance(o, TDict): return all(x not in self for x in o)
        for s in (o.keys() if isinstance(o, TDict) else o).get_segs():
            if s.items is not None: out += [SymBool.mk(self.lookup(keyterms(x))[0]) if self.sym else x in self for x in s.items]
            else:
                self.make_sym()
                kt = keyterms(s.elem)
                if self.kind is None: continue
                out.append(SymBool.mk(core.exists(s.binders, z3.And(s.guard, self.lookup(kt)[0]))))
        return not_(or_(*out))
    def intersection(self, o): raise Unsupported('set intersection')
    __and__ = intersection
    def __iter__(self):
        if self.sym or dict.__len__(self) < 2: return TDict.__iter__(self)
        whole_read(self)
        return iter(set_order(list(dict.keys(self))))
    def __deepcopy__(self, memo): return TSet(self)


def set_order(items):
    """the iteration order of a set is not specified: every order is possible"""
    E = core.ENG
    if len(items) < 2 or E is None: return items
    h = E.opts.get('effects')
    if h: return h.set_order(items)
    if len(items) > 5: raise Unsupported('iteration order of a set')
    out = []
    while items: out.append(items.pop(E.choose(len(items), 'set order') if len(items) > 1 else 0))
    return out


# ------------------------------------------------------------------ while loops: cut points

def vc_while(tok, cells):
    """arrival at the head of a while loop.  Without a handler the loop is simply run."""
    h = core.ENG.opts.get('while_handler') if core.ENG is not None else None
    if h is None: return True
    return h.arrive(tok, cells)


def fingerprint(o, allowed):
    if isinstance(o, TDict): return (o.sym, len(o.layers), [(builtins.id(k), builtins.id(v)) for k, v in dict.items(o)])
    if isinstance(o, TList): return [(builtins.id(s), builtins.id(s.items), [builtins.id(x) for x in s.items or ()]) for s in o.segs]
    d = getattr(o, '__dict__', None)
    if d is None: return None
    return {k: builtins.id(v) for k, v in d.items() if (builtins.id(o), k) not in allowed}


def wseq(E, n, el):
    b = newbinders(1)[0]
    E.atom_bounds[b.get_id()] = (0, None); E.atom_keep[b.get_id()] = b
    return [Seg(None, [b], z3.And(b >= 0, b < num(n).z()), el(E.atom(b, (0, None), False)), 0, n)]


def same_value(a, b):
    """structural equality of values and plain objects, as a formula"""
    if isinstance(a, VCBase) and isinstance(b, VCBase) and type(a) is type(b) and vec_of(a) is None and not hasattr(a, 'vc_eq'):
        if set(a.__dict__) != set(b.__dict__): return False
        return and_(*[same_value(a.__dict__[k], b.__dict__[k]) for k in a.__dict__])
    if isinstance(a, TDict) and isinstance(b, TDict) and not a.sym and not b.sym:
        if [k for k in dict.keys(a)] != [k for k in dict.keys(b)]: return False
        return and_(*[same_value(x, y) for x, y in zip(dict.values(a), dict.values(b))])
    if isinstance(a, TList) and isinstance(b, TList) and not a.symbolic() and not b.symbolic():
        x, y = a._c(), b._c()
        return and_(*[same_value(p, q) for p, q in zip(x, y)]) if len(x) == len(y) else False
    if a is None or b is None: return a is b
    return sym_eq(a, b)


class WhileCut:
    """proof rule for a while loop: the invariant holds at the first arrival; from an arbitrary state satisfying it one
    iteration re-establishes it (and decreases the variant).  Assigned integer locals are tied to the ghost counters by a relation
    which is guessed and verified (a refuted guess restarts the contract with the next one).  changes: the (object, attribute)
    cells that the loop may change (made arbitrary by havoc); any other change to an existing object is outside the rule."""
    def __init__(self, first, havoc, again, guesses, changes=(), lists=None, advance=None):
        self.lists, self.advance, self.from_serial = lists, advance, len(core.ENG.by_serial)
        self.first, self.havoc, self.again, self.guesses = first, havoc, again, guesses
        self.allowed = {(builtins.id(o), a) for o, a in changes}
        self.tok = None

    def arrive(self, tok, cells):
        E = core.ENG
        if E.loopstack: raise Unsupported('while loop inside a summarised loop')
        H = E.opts['houdini']
        names, getters, setter = cells or ((), (), None)
        def get(g):
            try: return g()
            except NameError: return UNB
        if not tok:
            if self.tok is not None: raise Unsupported('second while loop')
            self.tok = tok
            tok.append(1)
            self.first()
            old = [(j, x, get(g)) for j, (x, g) in enumerate(zip(names, getters))]
            self.havoc()
            self.kept = []
            for j, x, v in old:
                if v is UNB or v is None: continue
                if isinstance(v, bool): setter(j, builtins.bool(E.choose(2, x))); continue
                if isinstance(v, (int, Num)):
                    k = H.setdefault(x, 0)
                    gs = self.guesses()
                    if k >= len(gs): setter(j, E.fresh_int('loop_' + x, -(1 << 30), 1 << 30)); continue
                    setter(j, gs[k](v))
                    self.kept.append((j, x, v, k, getters[j]))
                    continue
                raise Unsupported('while loop carries %s (%s)' % (x, type(v).__name__))
            self.guessed = []
            if self.lists:
                for ser in range(self.from_serial, len(E.by_serial)):
                    o = E.by_serial[ser]
                    if not isinstance(o, TList): continue
                    x = ('list', ser)
                    k = H.setdefault(x, 0)
                    if k == 0: continue
                    gs = self.lists()
                    if k > len(gs): raise Unsupported('a list changed by the loop')
                    if o.symbolic() or o._c(): raise Unsupported('the loop extends a list that is not empty')
                    n, el = gs[k - 1]
                    o.segs = wseq(E, n, el)
                    self.guessed.append((o, x, k))
            self.unb = [x for j, x, v in old if v is UNB or v is None]
            self.prints = [(o, fingerprint(o, self.allowed)) for o in E.by_serial]
            return True
        if tok is not self.tok: raise Unsupported('second while loop')
        for o, p in self.prints:
            if any(o is g[0] for g in self.guessed): continue
            if fingerprint(o, self.allowed) != p:
                if self.lists and isinstance(o, TList) and ('list', E.births[id(o)][2]) in H:
                    H[('list', E.births[id(o)][2])] += 1
                    raise core.RestartContract()
                raise Unsupported('the loop changes a %s outside its frame' % type(o).__name__)
        if self.advance: self.advance()
        for o, x, k in self.guessed:
            n, el = self.lists()[k - 1]
            ok = sym_eq(o.vc_len(), n)
            if ok is True or isinstance(ok, SymBool) and E.entails(ok.e):
                i = E.fresh_int('element', 0, None)
                if not builtins.bool(i < n): raise core.Infeasible()
                try: ok = same_value(o[i], el(i))
                except Unsupported: ok = False
                if ok is True or isinstance(ok, SymBool) and E.entails(ok.e): continue
            H[x] = k + 1
            raise core.RestartContract()
        gs = self.guesses()
        for j, x, v, k, g in self.kept:
            now = get(g)
            if not isinstance(now, (int, Num)): raise Unsupported('while loop changes the kind of ' + x)
            eq = sym_eq(now, gs[k](v))
            if eq is True or isinstance(eq, SymBool) and E.entails(eq.e): continue
            H[x] = k + 1
            raise core.RestartContract()
        self.again()
        raise core.Infeasible()
