"""pyvc core: symbolic values, path exploration, loop summarisation.

The verifier executes the real functions of /repo (instrumented mechanically, see
instr.py) on symbolic values.  Branches on symbolic conditions fork; loops over
symbolic ranges/sequences are executed once for an arbitrary iteration and
summarised (effects become universally quantified layers, see loops in `vc_for`).
Obligations (`Engine.check`) are discharged by z3 (and cvc5 as second opinion).
"""
import fractions, time, math, builtins, os
import z3

Fraction = fractions.Fraction


class Ctl(BaseException):
    """engine control flow; BaseException so that code under test cannot catch it"""
class Unsupported(Ctl):
    pass
class Infeasible(Ctl):
    pass
class BodyDone(Ctl):
    pass
class NeedSummary(Ctl):
    def __init__(self, key, base): self.key = key; self.base = base
class RestartFrame(Ctl):
    def __init__(self, key): self.key = key
class GenStop(Ctl):
    def __init__(self, sig, ident): self.sig = sig; self.ident = ident
class RestartContract(Ctl):
    pass
class Budget(Ctl):
    pass

ENG = None      # the active engine (symbolic mode only)


def eng():
    return ENG

# --------------------------------------------------------------------------- numbers

def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def _is_num(x):
    return type(x) in (int, float, bool) or isinstance(x, (int, float))


def _dyadic(x):
    """exact Fraction/int of a python number"""
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non-finite float')
    return _norm(Fraction(x))


class Num:
    """An exact number  sum(coef*atom)+c , atoms are integer-valued z3 terms.
    f: is it a python float (arithmetic stays exact: magnitude is checked)."""
    __slots__ = ('t', 'c', 'f', '_b')

    def __init__(self, t, c=0, f=False):
        self.t = t; self.c = c; self.f = f; self._b = None

    # -- helpers
    def den(self):
        d = 1
        for (_, k) in self.t.values():
            if type(k) is Fraction: d = d * k.denominator // math.gcd(d, k.denominator)
        if type(self.c) is Fraction: d = d * self.c.denominator // math.gcd(d, self.c.denominator)
        return d

    def bounds(self):
        if self._b is None:
            lo = hi = self.c
            ab = ENG.atom_bounds
            for i, (a, k) in self.t.items():
                b = ab.get(i)
                if b is None: b = (None, None)
                l, h = b
                if k < 0: l, h = h, l
                lo = None if (lo is None or l is None) else lo + k * l
                hi = None if (hi is None or h is None) else hi + k * h
            self._b = (lo, hi)
        return self._b

    def mag(self):
        lo, hi = self.bounds()
        if lo is None or hi is None: return None
        return max(abs(lo), abs(hi))

    def z(self, scale=1):
        """z3 Int term of value*scale (must be integral)"""
        terms = []
        for (a, k) in self.t.values():
            kk = _norm(k * scale) if scale != 1 else k
            if type(kk) is Fraction: raise Unsupported('non-integral term')
            terms.append(a if kk == 1 else z3.IntVal(kk) * a)
        cc = _norm(self.c * scale)
        if type(cc) is Fraction: raise Unsupported('non-integral constant')
        if cc != 0 or not terms: terms.append(z3.IntVal(cc))
        r = terms[0]
        if len(terms) > 1: r = z3.Sum(terms)
        return r

    def r(self):
        """z3 Real term"""
        d = self.den()
        return z3.ToReal(self.z(d)) / d if d != 1 else z3.ToReal(self.z())

    def isint(self):
        return self.den() == 1

    def mk(self, t, c, f):
        c = _norm(c)
        if not t:
            return _const(c, f)
        n = Num(t, c, f)
        if f:
            m = n.mag()
            if m is None or m * n.den() >= 2 ** 53:
                ENG.inexact.add('float arithmetic beyond the exact range')
                raise Unsupported('float magnitude not bounded below 2^53: %r %s' % (n, {str(a): ENG.atom_bounds.get(i) for i, (a, k) in t.items()}))
        return n

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, (Approx, OpF)): return NotImplemented
        if type(o) is float and o != int(o) and Fraction(o).denominator > 2 ** 20:
            r = round(o * 2) / 2
            m = self.mag()
            if abs(o - r) < 1e-9 and m is not None:
                b = self + r
                return Approx(with_f(b, True), abs(Fraction(o) - Fraction(r)) + Fraction(m + 1, 2 ** 50))
            return OpF.of(self) + o
        o = num(o)
        if o is NotImplemented: return o
        t = dict(self.t)
        for i, (a, k) in o.t.items():
            if i in t:
                k2 = _norm(t[i][1] + k)
                if k2 == 0: del t[i]
                else: t[i] = (a, k2)
            else: t[i] = (a, k)
        return self.mk(t, self.c + o.c, self.f or o.f)
    __radd__ = __add__

    def __neg__(self):
        return self.mk({i: (a, -k) for i, (a, k) in self.t.items()}, -self.c, self.f)
    def __pos__(self): return self

    def __sub__(self, o):
        if isinstance(o, (Approx, OpF)): return NotImplemented
        if type(o) is float: return self + (-o)
        o = num(o)
        if o is NotImplemented: return o
        n = o.__neg__()
        return self + n

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, k, f):
        if k == 0:
            return _const(0, f)
        return self.mk({i: (a, _norm(c * k)) for i, (a, c) in self.t.items()}, self.c * k, f)

    def __mul__(self, o):
        if isinstance(o, (Approx, OpF)): return NotImplemented
        if isinstance(o, (bytes, bytearray)):
            from . import stream
            return stream.repeat(o, self)
        if isinstance(o, float):
            if o != o: raise Unsupported('nan')
            r = round(o * 2) / 2
            if o != r and abs(o - r) < 1e-9:
                m = self.mag()
                if m is None: raise Unsupported('unbounded operand of inexact product')
                err = Fraction(m) * abs(Fraction(o) - Fraction(r)) + Fraction(m + 1, 2 ** 50)
                return Approx(self.scale(_dyadic(r), True), err)
            if Fraction(o).denominator > 2 ** 20:
                return OpF.of(self) * o
        o = num(o)
        if o is NotImplemented: return o
        if not o.t: return self.scale(o.c, self.f or o.f)
        if not self.t: return o.scale(self.c, self.f or o.f)
        if self.isint() and o.isint():
            e = self.z() * o.z()
            b1, b2 = self.bounds(), o.bounds()
            bb = (None, None)
            if None not in b1 and None not in b2:
                ps = [x * y for x in b1 for y in b2]
                bb = (min(ps), max(ps))
            elif b1[0] is not None and b2[0] is not None and b1[0] >= 0 and b2[0] >= 0:
                bb = (b1[0] * b2[0], None)
            return ENG.atom(e, bb, self.f or o.f)
        d1, d2 = self.den(), o.den()
        p = self.scale(d1, False) * o.scale(d2, False)
        if isinstance(p, Num): return p.scale(_norm(Fraction(1, d1 * d2)), self.f or o.f)
        return _const(Fraction(p, d1 * d2), self.f or o.f)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, OpF): return NotImplemented
        if _is_num(o):
            k = _dyadic(o)
            if k == 0: raise ZeroDivisionError
            fr = Fraction(1) / Fraction(k)
            if fr.denominator & (fr.denominator - 1) == 0:
                return self.scale(_norm(fr), True)
        return OpF.of(self) / o

    def __rtruediv__(self, o):
        return OpF.of(o) / self

    def __floordiv__(self, o):
        if isinstance(o, OpF): return NotImplemented
        if _is_num(o):
            k = Fraction(_dyadic(o))
            if k == 0: raise ZeroDivisionError
            r = self.scale(_norm(1 / k), False) if k > 0 else (-self).scale(_norm(1 / -k), False)
            f = self.f or isinstance(o, float)
            return with_f(floor_(r), f)
        o = num(o)
        if o is NotImplemented: return o
        lo, hi = o.bounds()
        if not (self.isint() and o.isint()): raise Unsupported('fractional floordiv')
        if not (lo is not None and lo > 0) and not ENG.entails(o.z() > 0):
            raise Unsupported('division by a possibly non-positive symbolic value')
        return ENG.atom(self.z() / o.z(), _divb(self.bounds(), o.bounds()), self.f or o.f)

    def __rfloordiv__(self, o):
        return num(o) // self if num(o) is not NotImplemented else NotImplemented

    def __mod__(self, o):
        if isinstance(o, OpF): return NotImplemented
        if _is_num(o):
            return self - (self // o) * o
        o2 = num(o)
        if o2 is NotImplemented: return o2
        if not (self.isint() and o2.isint()): raise Unsupported('fractional mod')
        lo, hi = o2.bounds()
        if not (lo is not None and lo > 0) and not ENG.entails(o2.z() > 0):
            raise Unsupported('modulo by a possibly non-positive symbolic value')
        return ENG.atom(self.z() % o2.z(), (0, None if hi is None else hi - 1), self.f or o2.f)

    def __rmod__(self, o):
        if isinstance(o, str): return NotImplemented
        return num(o) % self

    def __divmod__(self, o): return (self // o, self % o)

    def __abs__(self):
        lo, hi = self.bounds()
        if lo is not None and lo >= 0: return self
        if hi is not None and hi <= 0: return -self
        d = self.den()
        z = self.z(d)
        m = self.mag()
        a = ENG.atom(z3.If(z >= 0, z, -z), (0, None if m is None else m * d), False)
        return with_f(a.scale(Fraction(1, d), self.f) if isinstance(a, Num) else a, self.f)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o): r = r * self
            return r
        if _is_num(o): return OpF.of(self)._un('pow%s' % o)
        raise Unsupported('symbolic power')
    def __rpow__(self, o):
        if o == 2 and self.isint(): return 1 << self
        raise Unsupported('symbolic exponent')

    # -- bits (integers)
    def _needint(self):
        if self.f: raise TypeError('unsupported operand type(s) for bit operation: float')
        if not self.isint(): raise Unsupported('bits of fraction')

    def __and__(self, o):
        if isinstance(o, SymBool): o = o.num()
        if not isinstance(o, int): raise Unsupported('symbolic & symbolic')
        self._needint()
        if o < 0: raise Unsupported('& negative')
        res = 0
        k = 0
        while (1 << k) <= o:
            if o >> k & 1:
                j = k
                while o >> j & 1: j += 1
                part = ((self // (1 << k)) % (1 << (j - k)))
                res = res + part * (1 << k)
                k = j
            else: k += 1
        return res
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, int): return self + o - (self & o)
        raise Unsupported('symbolic |')
    __ror__ = __or__
    def __xor__(self, o):
        if isinstance(o, int): return self + o - 2 * (self & o)
        raise Unsupported('symbolic ^')
    __rxor__ = __xor__
    def __lshift__(self, o):
        if isinstance(o, int): return self * (1 << o)
        raise Unsupported('symbolic shift')
    def __rshift__(self, o):
        if isinstance(o, int): return self // (1 << o)
        raise Unsupported('symbolic shift')
    def __rlshift__(self, o):
        raise Unsupported('shift by symbolic')

    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, (Approx, OpF)): return NotImplemented
        o2 = num(o)
        if o2 is NotImplemented: return NotImplemented
        d = self.__sub_raw(o2)
        if not d.t:
            return op(d.c, 0)
        lo, hi = d.bounds()
        if op is _eq:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
            # integrality
            dd = d.den()
            ks = [int(k * dd) for (_, k) in d.t.values()]
            g = 0
            for k in ks: g = math.gcd(g, k)
            if int(d.c * dd) % g: return False
        elif op is _lt:
            if hi is not None and hi < 0: return True
            if lo is not None and lo >= 0: return False
        elif op is _le:
            if hi is not None and hi <= 0: return True
            if lo is not None and lo > 0: return False
        dd = d.den()
        pos, neg = [], []
        for (a, k) in d.t.values():
            k = int(k * dd)
            if k > 0: pos.append(a if k == 1 else k * a)
            else: neg.append(a if k == -1 else (-k) * a)
        c = int(d.c * dd)
        if c > 0: pos.append(z3.IntVal(c))
        elif c < 0: neg.append(z3.IntVal(-c))
        L = z3.Sum(pos) if len(pos) > 1 else (pos[0] if pos else z3.IntVal(0))
        R = z3.Sum(neg) if len(neg) > 1 else (neg[0] if neg else z3.IntVal(0))
        e = {_eq: lambda: L == R, _lt: lambda: L < R, _le: lambda: L <= R}[op]()
        return SymBool(e)

    def __sub_raw(self, o):
        t = dict(self.t)
        for i, (a, k) in o.t.items():
            if i in t:
                k2 = _norm(t[i][1] - k)
                if k2 == 0: del t[i]
                else: t[i] = (a, k2)
            else: t[i] = (a, -k)
        return Num(t, _norm(self.c - o.c), False)

    def __eq__(self, o):
        r = self._cmp(o, _eq)
        return False if r is NotImplemented and not isinstance(o, (Approx, OpF)) else r
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)
    def __lt__(self, o): return self._cmp(o, _lt)
    def __le__(self, o): return self._cmp(o, _le)
    def __gt__(self, o):
        r = self._cmp(o, _le)
        return r if r is NotImplemented else not_(r)
    def __ge__(self, o):
        r = self._cmp(o, _lt)
        return r if r is NotImplemented else not_(r)

    __hash__ = None

    def __bool__(self):
        return builtins.bool(not_(self == 0))

    def __index__(self):
        raise Unsupported('symbolic value used as a concrete index')
    __int__ = __index__
    def __float__(self):
        raise Unsupported('symbolic value converted by C code')
    def __floor__(self): return floor_(self)
    def __ceil__(self): return -floor_(-self)
    def __round__(self, nd=None): return round_(self, nd)
    def __trunc__(self): return int_(self)
    def __repr__(self):
        s = '+'.join('%s*%s' % (k, a) if k != 1 else str(a) for (a, k) in self.t.values())
        return '<%s%s%s>' % (s, '+%s' % self.c if self.c else '', 'f' if self.f else '')
    def __format__(self, spec): return '\0' + repr(self)
    def __str__(self): return '\0' + repr(self)
    def is_integer(self): return floor_(self) == self
    def bit_length(self): raise Unsupported('bit_length')


def _eq(a, b): return a == b
def _lt(a, b): return a < b
def _le(a, b): return a <= b


def _divb(a, b):
    if None in a or None in b: return (None, None)
    vs = [x // y for x in a for y in b if y > 0]
    return (min(vs), max(vs)) if vs else (None, None)


def _const(c, f):
    c = _norm(c)
    if type(c) is Fraction:
        v = float(c)
        if Fraction(v) != c: raise Unsupported('inexact constant')
        return v
    return float(c) if f else int(c)


def num(x):
    if type(x) is Num: return x
    if isinstance(x, SymBool): return x.num()
    if isinstance(x, bool): return Num({}, int(x), False)
    if isinstance(x, int): return Num({}, x, False)
    if isinstance(x, float): return Num({}, _dyadic(x), True)
    return NotImplemented


def with_f(x, f):
    if isinstance(x, Num):
        return x if x.f == f else Num(x.t, x.c, f)
    if isinstance(x, (int, float)): return float(x) if f else int(x)
    return x


def floor_(x):
    if isinstance(x, (OpF, Approx)): return x.__floor__()
    if not isinstance(x, Num): return math.floor(x)
    it, rt = {}, {}
    for i, (a, k) in x.t.items():
        if type(k) is Fraction:
            fl = k.numerator // k.denominator
            if fl: it[i] = (a, fl)
            rt[i] = (a, k - fl)
        else: it[i] = (a, k)
    c = x.c
    if not rt:
        return Num(it, math.floor(c), False)
    cf = math.floor(c)
    R = Num(rt, _norm(c - cf), False)
    d = R.den()
    lo, hi = R.bounds()
    e = R.z(d) / d
    at = ENG.atom(e, (None if lo is None else math.floor(lo), None if hi is None else math.floor(hi)), False)
    return Num(it, cf, False) + at if it or cf else at


def ceil_(x): return -floor_(-x) if isinstance(x, Num) else math.ceil(x)


def int_(x):
    if isinstance(x, SymBool): return x.num()
    if isinstance(x, Approx): raise Unsupported('int of approximate')
    if isinstance(x, OpF): return x._int()
    if not isinstance(x, Num): return builtins.int(x)
    if x.isint(): return with_f(x, False)
    lo, hi = x.bounds()
    if lo is not None and lo >= 0: return floor_(x)
    if builtins.bool(x >= 0): return floor_(x)
    return -floor_(-x)


def round_(x, nd=None):
    if isinstance(x, Approx):
        if not x.base.isint() if isinstance(x.base, Num) else (x.base != int(x.base)):
            raise Unsupported('rounding of a non-integral approximate value')
        if x.err >= Fraction(1, 2): raise Unsupported('rounding error too large')
        return with_f(x.base, False)
    if isinstance(x, OpF): raise Unsupported('round of opaque float')
    if not isinstance(x, Num):
        return builtins.round(x) if nd is None else builtins.round(x, nd)
    if nd is not None: raise Unsupported('round(x, n)')
    if x.isint(): return with_f(x, False)
    f = floor_(x + Fraction(1, 2)) if False else floor_(num_add(x, Fraction(1, 2)))
    # ties to even: if x - floor(x) == 1/2 and f odd -> f-1
    if x.den() % 2 == 0:
        tie = (num_add(x, Fraction(1, 2)) == f)
        if builtins.bool(tie):
            if builtins.bool(f % 2 == 1): return f - 1
    return f


def num_add(x, fr):
    return Num(x.t, _norm(x.c + fr), False)


class Approx:
    """base + e with |e| <= err (float computation whose exact value is not tracked)"""
    __slots__ = ('base', 'err')
    def __init__(self, base, err): self.base = base; self.err = err
    def _mag(self):
        b = self.base
        m = b.mag() if isinstance(b, Num) else abs(Fraction(b))
        if m is None: raise Unsupported('unbounded approximate')
        return m
    def _ulp(self, base):
        m = base.mag() if isinstance(base, Num) else abs(Fraction(base))
        return Fraction(Fraction(m) + 1) / 2 ** 50
    def __add__(self, o):
        if isinstance(o, Approx):
            b = self.base + o.base
            return Approx(b, self.err + o.err + self._ulp(b))
        b = self.base + o
        return Approx(b, self.err + self._ulp(b))
    __radd__ = __add__
    def __neg__(self): return Approx(-self.base, self.err)
    def __sub__(self, o): return self + (-o)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o):
        if not _is_num(o): raise Unsupported('approx product')
        k = Fraction(o)
        r = self.base * o
        if isinstance(r, Approx): return Approx(r.base, r.err + self.err * abs(k))
        return Approx(r, self.err * abs(k) + self._ulp(r))
    __rmul__ = __mul__
    def __truediv__(self, o):
        r = self.base / o
        if isinstance(r, Approx) or isinstance(r, OpF): raise Unsupported('approx division')
        return Approx(r, self.err / abs(Fraction(o)) + self._ulp(r))
    def __round__(self, nd=None): return round_(self, nd)
    def __floor__(self): raise Unsupported('floor of approximate value')
    def __bool__(self): raise Unsupported('truth of approximate value')
    def _c(self, o): raise Unsupported('comparison of approximate value')
    __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __ne__ = _c
    __hash__ = None


class OpF:
    """opaque float: a z3 Real term; arithmetic is uninterpreted with IEEE-sound axioms"""
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    @staticmethod
    def of(x):
        if isinstance(x, OpF): return x
        if isinstance(x, Num): return OpF(x.r())
        if isinstance(x, bool): x = int(x)
        if isinstance(x, SymBool): return OpF(x.num().r())
        if isinstance(x, (int, float)):
            f = Fraction(x)
            return OpF(z3.RealVal(str(f)))
        return NotImplemented
    def _bin(self, name, o, rev=False):
        o = OpF.of(o)
        if o is NotImplemented: return o
        a, b = (o.e, self.e) if rev else (self.e, o.e)
        f = z3.Function('fp_' + name, z3.RealSort(), z3.RealSort(), z3.RealSort())
        r = f(a, b)
        ax = []
        if name == 'add':
            ax.append(z3.Implies(b == 0, r == a)); ax.append(z3.Implies(a == 0, r == b))
            ax.append(z3.Implies(b >= 0, r >= a)); ax.append(z3.Implies(b <= 0, r <= a))
            ax.append(z3.Implies(a >= 0, r >= b)); ax.append(z3.Implies(a <= 0, r <= b))
        elif name == 'sub':
            ax.append(z3.Implies(b == 0, r == a))
            ax.append(z3.Implies(b >= 0, r <= a)); ax.append(z3.Implies(b <= 0, r >= a))
            ax.append(z3.Implies(a >= b, r >= 0)); ax.append(z3.Implies(a <= b, r <= 0))
            ax.append(z3.Implies(a - b <= 1, r <= 1)); ax.append(z3.Implies(a - b >= -1, r >= -1))      # rounding is monotone and keeps +-1
        elif name == 'mod':
            ax.append(z3.Implies(b > 0, z3.And(r >= 0, r <= b)))      # (a % b may round up to b for a tiny negative a)
        elif name == 'mul':
            ax.append(z3.Implies(z3.Or(a == 0, b == 0), r == 0))
            ax.append(z3.Implies(b == 1, r == a)); ax.append(z3.Implies(a == 1, r == b))
            ax.append(z3.Implies(z3.And(a >= 0, b >= 0), r >= 0))
            ax.append(z3.Implies(z3.And(a >= 0, b >= 0, b <= 1), r <= a))
            ax.append(z3.Implies(z3.And(b >= 0, a >= 0, a <= 1), r <= b))
            ax.append(z3.Implies(z3.And(a <= 0, b <= 0), r >= 0))
            ax.append(z3.Implies(z3.Or(z3.And(a <= 0, b >= 0), z3.And(a >= 0, b <= 0)), r <= 0))
        elif name == 'div':
            ax.append(z3.Implies(a == 0, r == 0)); ax.append(z3.Implies(b == 1, r == a))
            ax.append(z3.Implies(z3.And(a >= 0, b > 0), r >= 0))
            ax.append(z3.Implies(z3.And(a >= 0, b > 0, a <= b), r <= 1))
            ax.append(z3.Implies(z3.And(b > 0, a >= b), r >= 1))
        for x in ax: ENG.fact(x, r)
        return OpF(r)
    def _un(self, name):
        f = z3.Function('fu_' + name, z3.RealSort(), z3.RealSort())
        return OpF(f(self.e))
    def __add__(self, o): return self._bin('add', o)
    def __radd__(self, o): return self._bin('add', o, True)
    def __sub__(self, o): return self._bin('sub', o)
    def __rsub__(self, o): return self._bin('sub', o, True)
    def __mul__(self, o): return self._bin('mul', o)
    def __rmul__(self, o): return self._bin('mul', o, True)
    def __truediv__(self, o):
        b = OpF.of(o)
        if b is NotImplemented: return b
        if builtins.bool(SymBool.mk(b.e == 0)): raise ZeroDivisionError('float division by zero')
        return self._bin('div', o)
    def __rtruediv__(self, o):
        return OpF.of(o) / self
    def __mod__(self, o):
        b = OpF.of(o)
        if b is NotImplemented: return b
        if builtins.bool(SymBool.mk(b.e == 0)): raise ZeroDivisionError('float modulo')
        return self._bin('mod', o)
    def __neg__(self): return OpF(-self.e)
    def __abs__(self): return OpF(z3.If(self.e >= 0, self.e, -self.e))
    def __pow__(self, o): return self._un('pow%s' % o)
    def __floor__(self):
        return ENG.atom(z3.ToInt(self.e), (None, None), False)
    def _int(self):
        return ENG.atom(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)), (None, None), False)
    def _cmp(self, o, fn):
        o = OpF.of(o)
        if o is NotImplemented: return o
        return SymBool.mk(fn(self.e, o.e))
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r
    def __ne__(self, o): return not_(self == o)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __bool__(self): return builtins.bool(self != 0)
    def __float__(self): raise Unsupported('opaque float converted by C code')
    __hash__ = None
    def __repr__(self): return '<OpF %s>' % self.e
    def __format__(self, spec): return '\0' + repr(self)
    def __str__(self): return '\0' + repr(self)


class SymBool:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    @staticmethod
    def mk(e):
        if isinstance(e, bool): return e
        if isinstance(e, SymBool): return e
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        return SymBool(e)
    def __bool__(self): return ENG.decide(self.e)
    def num(self): 
        r = ENG.atom(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), (0, 1), False)
        return r if isinstance(r, Num) else Num({}, r, False)
    def __add__(self, o): return self.num() + o
    __radd__ = __add__
    def __sub__(self, o): return self.num() - o
    def __mul__(self, o): return self.num() * o
    __rmul__ = __mul__
    def __and__(self, o): return and_(self, o)
    __rand__ = __and__
    def __or__(self, o): return or_(self, o)
    __ror__ = __or__
    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)): return SymBool.mk(self.e == bz(o))
        if isinstance(o, (int, Num)): return self.num() == o
        return False
    def __ne__(self, o): return not_(self == o)
    def __lt__(self, o): return self.num() < o
    def __gt__(self, o): return self.num() > o
    def __index__(self): raise Unsupported('symbolic bool as index')
    __hash__ = None
    def __repr__(self): return '<B %s>' % self.e
    def __format__(self, spec): return '\0' + repr(self)
    def __str__(self): return '\0' + repr(self)


def lin(e, ids):
    """integer term as (coefficients of the constants with these ids, rest) or None"""
    if z3.is_int_value(e): return {}, e
    i = e.get_id()
    if i in ids: return {i: 1}, z3.IntVal(0)
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        co, rest = {}, []
        for c in e.children():
            r = lin(c, ids)
            if r is None: return None
            for a, b in r[0].items(): co[a] = co.get(a, 0) + b
            rest.append(r[1])
        return co, z3.Sum(rest)
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        co, rest = {}, []
        for n, c in enumerate(ch):
            r = lin(c, ids)
            if r is None: return None
            s = 1 if n == 0 else -1
            for a, b in r[0].items(): co[a] = co.get(a, 0) + s * b
            rest.append(r[1] if s == 1 else -r[1])
        return co, z3.Sum(rest)
    if k == z3.Z3_OP_UMINUS:
        r = lin(e.arg(0), ids)
        if r is None: return None
        return {a: -b for a, b in r[0].items()}, -r[1]
    if k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        r = lin(e.arg(1), ids)
        if r is None: return None
        m = e.arg(0).as_long()
        return {a: b * m for a, b in r[0].items()}, r[1] * m
    # a term that must not mention the binders
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in ids: return None
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return {}, e


def conjuncts(e, out):
    if z3.is_and(e):
        for c in e.children(): conjuncts(c, out)
    else: out.append(e)
    return out


def exists(bs, body):
    """Exists bs. body, with binders determined by a linear equation eliminated (one-point rule)"""
    bs = list(bs)
    body = z3.simplify(body)
    if z3.is_or(body) and len(body.children()) <= 12:
        return z3.Or([exists(bs, c) for c in body.children()])
    prog = True
    while bs and prog:
        prog = False
        cs = conjuncts(body, [])
        ids = {b.get_id(): b for b in bs}
        best = None
        for n, c in enumerate(cs):
            if not (z3.is_eq(c) and c.arg(0).sort() == z3.IntSort()): continue
            l, r = lin(c.arg(0), ids), lin(c.arg(1), ids)
            if l is None or r is None: continue
            co = dict(l[0])
            for a, k in r[0].items(): co[a] = co.get(a, 0) - k
            co = {a: k for a, k in co.items() if k}
            for a, k in co.items():
                if abs(k) != 1 and len(co) > 1: continue
                if best is None or abs(k) < abs(best[2]): best = (n, a, k, co, l[1], r[1])
        if best is not None:
            n, a, k, co, lr, rr = best
            # k*b + others + lr == rr
            t = rr - lr
            for a2, k2 in co.items():
                if a2 != a: t = t - k2 * ids[a2]
            rest = [c for m, c in enumerate(cs) if m != n]
            if k < 0: t, k = -t, -k
            t = z3.simplify(t)
            if k != 1:
                rest.append(t % k == 0)
                t = z3.simplify(t / k)
            b = ids[a]
            body = z3.simplify(z3.substitute(z3.And(rest) if rest else z3.BoolVal(True), (b, t)))
            bs = [x for x in bs if x.get_id() != a]
            prog = True
            if z3.is_false(body) or z3.is_true(body) and not bs: return body
    if not bs: return body
    # drop conjuncts that do not mention the binders out of the quantifier
    cs = conjuncts(body, [])
    ids = {b.get_id() for b in bs}
    ins, outs = [], []
    for c in cs:
        (ins if _mentions(c, ids) else outs).append(c)
    if not ins: return body       # integers are inhabited
    q = z3.Exists(bs, z3.And(ins) if len(ins) > 1 else ins[0])
    # ranges: Exists b. lo <= b & b < hi
    return z3.And(outs + [q]) if outs else q


def _mentions(e, ids):
    st, seen = [e], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in ids: return True
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False


def forall(bs, body):
    e = z3.simplify(exists(bs, z3.Not(body)))
    return z3.Not(e)


def bz(b):
    """to z3 Bool"""
    if isinstance(b, SymBool): return b.e
    if isinstance(b, z3.BoolRef): return b
    if isinstance(b, Num): return bz(not_(b == 0))
    if isinstance(b, OpF): return b.e != 0
    return z3.BoolVal(builtins.bool(b))


def not_(b):
    if isinstance(b, SymBool): return SymBool.mk(z3.Not(b.e))
    if isinstance(b, z3.BoolRef): return SymBool.mk(z3.Not(b))
    return not b


def and_(*bs):
    out = []
    for b in bs:
        if isinstance(b, (SymBool, z3.BoolRef)): out.append(bz(b))
        elif not b: return False
    if not out: return True
    return SymBool.mk(z3.And(out) if len(out) > 1 else out[0])


def or_(*bs):
    out = []
    for b in bs:
        if isinstance(b, (SymBool, z3.BoolRef)): out.append(bz(b))
        elif b: return True
    if not out: return False
    return SymBool.mk(z3.Or(out) if len(out) > 1 else out[0])


def ite_num(c, a, b):
    """numeric if-then-else without forking"""
    if not isinstance(c, (SymBool, z3.BoolRef)): return a if c else b
    a, b = num(a), num(b)
    if a.isint() and b.isint():
        ba, bb = a.bounds(), b.bounds()
        lo = None if None in (ba[0], bb[0]) else min(ba[0], bb[0])
        hi = None if None in (ba[1], bb[1]) else max(ba[1], bb[1])
        return ENG.atom(z3.If(bz(c), a.z(), b.z()), (lo, hi), a.f or b.f)
    raise Unsupported('ite of fractions')


class Poison:
    """value of a variable carried through a summarised loop that has no closed form"""
    def __init__(self, why): object.__setattr__(self, '_why', why)
    def _u(self, *a, **k): raise Unsupported('loop-carried value used: ' + object.__getattribute__(self, '_why'))
    __getattr__ = __call__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __eq__ = __ne__ = _u
    __lt__ = __le__ = __gt__ = __ge__ = __iter__ = __len__ = __getitem__ = __contains__ = __hash__ = __str__ = __setattr__ = _u
    __truediv__ = __mod__ = __and__ = __or__ = __setitem__ = __int__ = __index__ = __float__ = __neg__ = _u
    __class__ = property(_u)      # isinstance() of anything but Poison itself
    def __repr__(self): return '<poison>'


class Opaque:
    """an arbitrary object identified by an integer term"""
    def __init__(self, term, kind='obj', attrs=None):
        self.__dict__['_term'] = term
        self.__dict__['_kind'] = kind
        self.__dict__['_at'] = attrs or {}
    def __eq__(self, o):
        if isinstance(o, Opaque): return SymBool.mk(self._term == o._term)
        return False
    def __ne__(self, o): return not_(self == o)
    __hash__ = None
    def __getattr__(self, k):
        at = self.__dict__['_at']
        if k in at: return at[k]
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported('attribute %s of an arbitrary %s' % (k, self.__dict__['_kind']))
    def __repr__(self): return '<%s %s>' % (self._kind, self._term)

# --------------------------------------------------------------------------- engine

class Frame:
    def __init__(self, key, base, parent=None):
        self.key = key; self.base = base
        self.chain = (parent.chain + [self]) if parent is not None else []
        self.work = [[]]; self.done = []
        self.restarts = 0
        self.carried = {}          # cell id -> mode ('poison' | 'num' | ('affine', delta))


class Obl:
    __slots__ = ('name', 'status', 'n', 'time', 'model', 'backend', 'detail', 'path')
    def __init__(self, name):
        self.name = name; self.status = 'discharged'; self.n = 0; self.time = 0.0
        self.model = None; self.backend = set(); self.detail = ''; self.path = None


class Engine:
    def __init__(self, timeout_ms=4000, budget_s=120, opts=None):
        self.timeout = timeout_ms
        self.deadline = time.time() + budget_s
        self.opts = opts or {}
        self.obls = {}
        self.assumptions = set()
        self.inexact = set()
        self.summaries = {}
        self.facts = {}            # range facts of iteration-indexed symbols
        self.key_ids = {}
        self.interned = {}         # identity numbers of objects, stable over the runs
        self.interned_objs = []
        self.paths = 0
        self.runs = 0
        self.reach = {}
        self.unsupported = []
        self.solver_time = 0.0
        self.solver_calls = 0
        self.functions = set()
        self.backends = {}
        self.str_templates = {}; self.str_consts = set()

    # ---- exploration
    def explore(self, fn):
        global ENG
        prev = ENG
        ENG = self
        self.root = Frame(None, [])
        try:
            self._frame(self.root, fn)
        finally:
            ENG = prev
        return self

    def _frame(self, frame, fn):
        while frame.work:
            if time.time() > self.deadline: raise Budget('time budget of the proof exhausted')
            suffix = frame.work.pop()
            try:
                self._run(fn, frame, suffix)
            except NeedSummary as n:
                # resume after the choices made so far (and whatever was still to be replayed)
                frame.work.append(list(n.base[len(frame.base):]) + list(self.script[self.pos:]))
                sub = Frame(n.key, list(n.base), frame)
                self._frame(sub, fn)
                self.summaries[n.key] = sub
            except RestartFrame as r:
                if r.key != frame.key: raise
                frame.work = [[]]; frame.done = []
                frame.restarts += 1
                if frame.restarts > 200: raise Unsupported('no stable loop summary')
                for k in [k for k, f in self.summaries.items() if frame in f.chain]: del self.summaries[k]
                continue

    def _run(self, fn, frame, suffix):
        self.runs += 1
        if self.runs > self.opts.get('max_runs', 60000): raise Budget('too many paths')
        self.script = frame.base + suffix
        self.pos = 0
        self.l0 = len(self.script)
        self.trace = []
        self.kinds = []
        self.frame = frame
        self.base_len = len(frame.base)
        self.pc = []
        self.defs_start = 0
        self.loopstack = []
        self.loopcount = 0
        self.fresh_n = {}
        self.atom_bounds = {}
        self.atom_keep = {}
        self.inline = []
        self.solver = None
        self.inputs = {}
        self.births = {}
        self.counted = {}
        self.perms = []
        self.by_serial = []
        self.in_skolem = 0
        self.str_templates = {}; self.str_consts = set()
        self.entered = 0
        try:
            fn(self)
        except Infeasible:
            return
        except BodyDone:
            return
        if frame.key is not None:
            raise Unsupported('loop %r not reached on replay' % (frame.key,))
        self.paths += 1

    # ---- choices
    def choose(self, n, label=''):
        """nondeterministic choice among n options (forks)"""
        self.kinds.append(n)
        if self.pos < len(self.script):
            v = self.script[self.pos]
            if v >= n: raise Unsupported('replayed choice out of range')
            self.pos += 1
            self.trace.append(v)
            return v
        v = 0
        self.pos += 1
        for k in range(n - 1, 0, -1):
            self.frame.work.append(self.trace[self.base_len:] + [k])
        self.trace.append(v)
        self.script = self.script + [v]
        return v

    def decide(self, e):
        self.kinds.append(-1)
        h = self.opts.get('effects')
        if h: h.branch(self, e)
        if self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
            self.trace.append(v)
            self.add_pc(e if v else z3.Not(e))
            return builtins.bool(v)
        if time.time() > self.deadline: raise Budget('time budget of the proof exhausted')
        st = self._sat(e)
        if st == 'unsat':
            v, both = 0, False
        else:
            sf = self._sat(z3.Not(e))
            if sf == 'unsat': v, both = 1, False
            else: v, both = 1, True
        self.pos += 1
        if both:
            self.frame.work.append(self.trace[self.base_len:] + [0])
        self.trace.append(v)
        self.script = self.script + [v]
        self.add_pc(e if v else z3.Not(e))
        if len(self.trace) > 4000: raise Unsupported('path too long')
        return builtins.bool(v)

    def add_pc(self, e):
        self.pc.append(e)
        if self.solver is not None: self.solver.add(e)

    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', self.opts.get('branch_timeout', 1500))
            self.solver.set('random_seed', 1)
            for p in self.pc: self.solver.add(p)
        return self.solver

    def _sat(self, e):
        t = time.time()
        s = self._solver()
        r = s.check(e)
        self.solver_time += time.time() - t
        self.solver_calls += 1
        return str(r)

    def entails(self, e):
        return self._sat(z3.Not(e)) == 'unsat'

    def settle(self, t):
        """resolve if-then-else terms whose condition the path decides"""
        t = z3.simplify(t)
        while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            if self.entails(c): t = a
            elif self.entails(z3.Not(c)): t = b
            else: break
        return t

    def assume(self, e):
        e = bz(e)
        if z3.is_true(e): return
        self.add_pc(e)
        if z3.is_false(z3.simplify(e)): raise Infeasible()
        if self.pos >= len(self.script) and self._sat(z3.BoolVal(True)) == 'unsat':
            raise Infeasible()

    def define(self, e):
        """facts that hold by definition of the model's symbols (never contradictory)"""
        e = z3.simplify(e)
        if not z3.is_true(e): self.add_pc(e)

    def fact(self, e, term):
        """an axiom about an uninterpreted term: holds on every path (in a summarised loop: for every iteration)"""
        e = z3.simplify(e)
        if z3.is_true(e): return
        bs = [b for b in self.binders() if _mentions(term, {b.get_id()})]
        if bs:
            if e.get_id() not in self.facts:
                t = z3.simplify(term)
                try: q = z3.ForAll(bs, e, patterns=[t])
                except z3.Z3Exception: q = z3.ForAll(bs, e)
                self.facts[e.get_id()] = (e, q)
        elif self.loopstack: self.facts.setdefault(e.get_id(), (e, e))
        self.add_pc(e)

    # ---- symbols
    def atom(self, e, bounds=(None, None), f=False):
        e = z3.simplify(e) if not (z3.is_const(e)) else e
        if z3.is_int_value(e): return _const(e.as_long(), f)
        i = e.get_id()
        self.atom_keep[i] = e
        old = self.atom_bounds.get(i)
        if old is None or old == (None, None):
            self.atom_bounds[i] = tuple(bounds)
        n = Num({i: (e, 1)}, 0, f)
        if f:
            m = n.mag()
            if m is None or m >= 2 ** 53: raise Unsupported('float magnitude')
        return n

    def fname(self, base):
        k = self.fresh_n.get(base, 0)
        self.fresh_n[base] = k + 1
        ctx = ''.join('_%d' % l.ident for l in self.loopstack)
        return '%s!%d%s' % (base, k, ctx)

    def binders(self):
        return [b for l in self.loopstack for b in l.binders]

    def const(self, base, sort):
        """fresh symbol; inside a summarised loop it is a function of the iteration"""
        bs = self.binders()
        nm = self.fname(base)
        if not bs: return z3.Const(nm, sort)
        f = z3.Function(nm, *([b.sort() for b in bs] + [sort]))
        return f(*bs)

    def ranged(self, base, sort, lo, hi, strict=False):
        """fresh symbol with a range; inside a summarised loop the range is a global fact about the symbol (its name carries
        the range), not part of the guard of the path"""
        bs = self.binders()
        if not bs:
            e = self.const(base, sort)
            if lo is not None: self.define(e >= lo)
            if hi is not None: self.define(e < hi if strict else e <= hi)
            return e
        e = self.const('%s[%s,%s%s' % (base, lo, hi, ')' if strict else ']'), sort)
        c = []
        if lo is not None: c.append(e >= lo)
        if hi is not None: c.append(e < hi if strict else e <= hi)
        if c:
            local = z3.simplify(z3.And(c))
            self.facts[local.get_id()] = (local, z3.ForAll(bs, z3.And(c), patterns=[e]))
            self.add_pc(local)
        return e

    def fresh_int(self, base, lo=None, hi=None, f=False):
        return self.atom(self.ranged(base, z3.IntSort(), lo, hi), (lo, hi), f)

    def fresh_bool(self, base):
        return SymBool(self.const(base, z3.BoolSort()))

    def fresh_real(self, base, lo=None, hi=None):
        return OpF(self.ranged(base, z3.RealSort(), lo, hi))

    def rand_real(self, name, lo, hi):
        return OpF(self.ranged(name, z3.RealSort(), lo, hi, True))

    def rand_index(self, n):
        """arbitrary index below n (forks)"""
        return self.choose(n, 'random')

    def intern_id(self, obj):
        """integer identity of a concrete python object"""
        if isinstance(obj, Opaque): return obj._term
        b = self.births.get(id(obj))
        if b is not None and b[1] == 0: return z3.IntVal(1000000 + b[2])      # creation order outside loops is the same in every run
        if isinstance(obj, (str, bytes, int, float, type(None), type)): k = (type(obj), obj)
        else: k = id(obj)
        if k not in self.interned:
            self.interned[k] = len(self.interned_objs)
            self.interned_objs.append(obj)
        return z3.IntVal(500000000 + self.interned[k])

    def object_of(self, t):
        """the object with this identity number, as a 1-tuple, or None"""
        if not z3.is_int_value(t): return None
        n = t.as_long()
        if n >= 500000000: return (self.interned_objs[n - 500000000],) if n - 500000000 < len(self.interned_objs) else None
        if n >= 1000000: return (self.by_serial[n - 1000000],) if n - 1000000 < len(self.by_serial) else None
        return None

    # ---- obligations
    def check(self, name, cond, detail=''):
        o = self.obls.get(name)
        if o is None: o = self.obls[name] = Obl(name)
        h = self.opts.get('effects')
        if h:
            del self.obls[name]
            h.check(self, name, bz(cond)); return
        if self.pos < self.l0: return    # checked by the run that created this branch
        o.n += 1
        if o.status == 'failed': return
        c = bz(cond)
        if z3.is_true(c):
            o.backend.add('path'); return
        t = time.time()
        st, model, be = self.prove(c)
        o.time += time.time() - t
        o.backend.add(be)
        if st == 'unsat': return
        if st == 'sat':
            o.status = 'failed'; o.model = model; o.detail = detail
            o.path = list(self.trace)
            o_inputs = {}
            for k, ext in self.inputs.items():
                try: o_inputs[k] = ext(model)
                except Exception as ex: pass
            o.model = {'inputs': o_inputs, 'model': str(model)[:4000]}
        elif o.status != 'failed':
            o.status = 'unknown'; o.detail = detail
            if os.environ.get('PYVC_DEBUG'):
                print('UNKNOWN', name, c, self.pc)

    def prove(self, c):
        """is c entailed by the path condition?"""
        s = self._solver()
        s.push()
        s.add(z3.Not(c))
        s.set('timeout', self.timeout)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.solver_calls += 1
        m = None
        be = 'z3'
        rs = str(r)
        if rs == 'sat': m = s.model()
        s.set('timeout', self.opts.get('branch_timeout', 1500))
        s.pop()
        if rs == 'unknown':
            # fresh solver, different configuration, then cvc5
            for cfg in ({'smt.mbqi': True, 'auto_config': False}, {'smt.arith.solver': 2, 'auto_config': False}):
                s2 = z3.SolverFor('ALL') if False else z3.Solver()
                for k, v in cfg.items():
                    try: s2.set(k, v)
                    except z3.Z3Exception: pass
                s2.set('timeout', self.timeout)
                for p in self.pc: s2.add(p)
                s2.add(z3.Not(c))
                t = time.time()
                r2 = str(s2.check())
                self.solver_time += time.time() - t
                self.solver_calls += 1
                if r2 != 'unknown':
                    rs = r2
                    if r2 == 'sat': m = s2.model()
                    break
        if rs == 'unknown':
            r3 = self._cvc5(c)
            if r3 == 'unsat': rs, be = 'unsat', 'cvc5'
        return rs, m, be

    def _cvc5(self, c):
        try:
            import cvc5
            s = z3.Solver()
            for p in self.pc: s.add(p)
            s.add(z3.Not(c))
            txt = s.to_smt2()
            tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
            sol = cvc5.Solver(tm) if tm else cvc5.Solver()
            sol.setOption('tlimit-per', str(self.timeout))
            sol.setLogic('ALL')
            ip = cvc5.InputParser(sol)
            ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = ip.getSymbolManager()
            res = None
            t = time.time()
            while True:
                cmd = ip.nextCommand()
                if cmd.isNull(): break
                out = cmd.invoke(sol, sm)
                if 'unsat' in str(out): res = 'unsat'
                elif 'sat' in str(out): res = 'sat'
            self.solver_time += time.time() - t
            self.solver_calls += 1
            return res or 'unknown'
        except Exception:
            return 'unknown'

    def cover(self, name):
        """reachability marker (vacuity guard): must be reached on a satisfiable path"""
        if self.reach.get(name): return
        if self._sat(z3.BoolVal(True)) != 'unsat': self.reach[name] = True
