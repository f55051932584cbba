"""binary files in the verifier: contracts of struct, gzip and bytes, output streams and input buffers.

A file is a sequence of tokens (one per struct field) and stars (a repetition: for k in 0..n-1 the tokens of body(k)).
Writer side: Stream collects what is written, a summarised loop contributes a star.  Reader side: Blob is an input buffer of
such a sequence; positions are ordinary numbers, the position of iteration k of a star is the symbol P_star(k)."""
import struct as _struct, builtins, re
import z3
from . import core, rt, shims
from .core import Num, OpF, SymBool, Unsupported, num, and_, or_

WIDTH = {'i': 4, 'I': 4, 'l': 4, 'L': 4, 'h': 2, 'H': 2, 'b': 1, 'B': 1, 'c': 1, '?': 1, 'f': 4, 'd': 8, 'q': 8, 'Q': 8}
RANGE = {'i': (-2 ** 31, 2 ** 31 - 1), 'I': (0, 2 ** 32 - 1), 'l': (-2 ** 31, 2 ** 31 - 1), 'L': (0, 2 ** 32 - 1), 'h': (-2 ** 15, 2 ** 15 - 1), 'H': (0, 2 ** 16 - 1),
         'b': (-128, 127), 'B': (0, 255), 'q': (-2 ** 63, 2 ** 63 - 1), 'Q': (0, 2 ** 64 - 1)}


class error(_struct.error):
    pass


# --------------------------------------------------------------------------- bytes

class SBytes(rt.SubstProto):
    """an arbitrary byte string (or text): identified by a term, with a length; pad extra zero bytes follow"""
    vc_class = bytes
    def __init__(self, term, n, pad=0): self.term, self.n, self.pad = term, n, pad
    def vc_subst(self, pairs, memo): return type(self)(z3.substitute(self.term, *pairs), rt.subst_obj(self.n, pairs, memo), self.pad)
    def vc_len(self): return self.n + self.pad
    def vc_key(self):
        if self.pad: raise Unsupported('padded string as key')
        return 's', [self.term]
    def vc_eq(self, o):
        if isinstance(o, SBytes): return and_(SymBool.mk(self.term == o.term), self.pad == o.pad) if type(o) is type(self) else False
        return False if not isinstance(o, (bytes, str)) else SymBool.mk(self.term == rt.keyterms(o)[1][0])
    def __eq__(self, o):
        if isinstance(o, (SBytes, bytes, str)): return self.vc_eq(o)
        raise Unsupported('comparison of bytes')
    def __ne__(self, o): return core.not_(self == o)
    __hash__ = None
    def __getitem__(self, s):
        if isinstance(s, slice) and s.step is None and (s.start in (None, 0)) and isinstance(s.stop, int):
            if s.stop == -1 and self.pad >= 1: return type(self)(self.term, self.n, self.pad - 1)
        raise Unsupported('slice of bytes')
    def rstrip(self, *a): raise Unsupported('rstrip')
    def __repr__(self): return '<%s %s>' % (type(self).__name__, self.term)
    def decode(self, encoding='utf-8', errors='strict'):
        if str(encoding).lower().replace('_', '-') not in ('utf-8', 'utf8') or self.pad: raise Unsupported('decode of arbitrary bytes')
        chars = core.ENG.atom(z3.Function('characters', z3.IntSort(), z3.IntSort())(self.term), (0, None), False)
        if builtins.bool(SymBool.mk(z3.Function('is utf-8', z3.IntSort(), z3.BoolSort())(self.term))): return SText(self.term, self.n, 0, chars)
        if errors == 'strict': raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'arbitrary bytes')
        if errors == 'surrogateescape': return SText(self.term, self.n, 0, chars, True)
        if errors in ('ignore', 'replace', 'backslashreplace'): return SText(z3.Function('decoded with ' + errors, z3.IntSort(), z3.IntSort())(self.term), self.n, 0, chars)
        raise Unsupported('decode of arbitrary bytes')
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported('bytes.%s' % k)


class SText(SBytes):
    """an arbitrary text: chars is its number of characters; encode() gives n bytes; esc: bytes which are not text, decoded with surrogateescape"""
    vc_class = str
    def __init__(self, term, n, pad=0, chars=None, esc=False): SBytes.__init__(self, term, n, pad); self.chars, self.esc = chars, esc
    def vc_subst(self, pairs, memo): return SText(z3.substitute(self.term, *pairs), rt.subst_obj(self.n, pairs, memo), self.pad, rt.subst_obj(self.chars, pairs, memo), self.esc)
    def vc_len(self): return self.chars
    def vc_eq(self, o): return and_(SBytes.vc_eq(self, o), self.esc == o.esc) if isinstance(o, SText) else SBytes.vc_eq(self, o)
    def decode(self, *a, **k): raise AttributeError("'str' object has no attribute 'decode'")
    def encode(self, encoding='utf-8', errors='strict'):
        if str(encoding).lower().replace('_', '-') not in ('utf-8', 'utf8'): raise Unsupported('encode of arbitrary text')
        if self.esc and errors != 'surrogateescape':
            if errors == 'strict': raise UnicodeEncodeError('utf-8', '\udcff', 0, 1, 'surrogates not allowed')
            raise Unsupported('encode of arbitrary text')
        return SBytes(self.term, self.n)
    def __getitem__(self, s): raise Unsupported('slice of text')


class SByte(rt.SubstProto):
    """one byte with an arbitrary value"""
    vc_class = bytes
    def __init__(self, v): self.v = v
    def vc_subst(self, pairs, memo): return SByte(rt.subst_obj(self.v, pairs, memo))
    def vc_ord(self): return self.v
    def vc_len(self): return 1
    def __getitem__(self, i):
        if i == 0: return self.v
        raise Unsupported('byte slice')
    def __eq__(self, o): return self.v == o.v if isinstance(o, SByte) else and_(len(o) == 1, self.v == o[0])
    __hash__ = None


def s_bytes(*a, **k):
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        xs = list(a[0]._c()) if isinstance(a[0], rt.TList) else list(a[0])
        if any(isinstance(x, Num) for x in xs):
            for x in xs:
                if not builtins.bool(and_(x >= 0, x <= 255)): raise ValueError('bytes must be in range(0, 256)')
            return SByte(xs[0]) if len(xs) == 1 else Data([Tok('B', x) for x in xs])
        a = (xs,)
    if a and isinstance(a[0], (SBytes, SByte, Data)): return a[0]
    return builtins.bytes(*a, **k)
s_bytes.decode = lambda x, *a, **k: x.decode(*a, **k)
s_bytes.fromhex = bytes.fromhex
s_bytes.join = lambda s, it: _join(s, it)
def _join(s, it):
    if s != b'': raise Unsupported('join')
    r = Data([])
    for x in it: r = r + x
    return r
shims.s_str.encode = lambda x, *a, **k: x.encode(*a, **k)


# --------------------------------------------------------------------------- tokens

class Tok(rt.SubstProto):
    """one field: code is a struct code (value a number), 's' (value bytes, width = length with padding) or a name of a stub"""
    def __init__(self, code, value, width=None): self.code, self.value, self.width = code, value, WIDTH[code] if width is None else width
    def vc_subst(self, pairs, memo): return Tok(self.code, rt.subst_obj(self.value, pairs, memo), rt.subst_obj(self.width, pairs, memo))
    def __repr__(self): return '%s:%r' % (self.code, self.value)


class Star(rt.SubstProto):
    """repetition written by a loop: n iterations from lo, or those in the set guard; alts = [(guard, items)] in terms of the binder"""
    def __init__(self, b, lo, n, alts, guard=None): self.b, self.lo, self.n, self.alts, self.guard = b, lo, n, alts, guard
    def vc_subst(self, pairs, memo):
        return Star(self.b, rt.subst_obj(self.lo, pairs, memo), rt.subst_obj(self.n, pairs, memo),
                    [(z3.substitute(g, *pairs), [rt.subst_obj(x, pairs, memo) for x in its]) for g, its in self.alts], None if self.guard is None else z3.substitute(self.guard, *pairs))
    @property
    def width(self):
        ws = [sum(t.width for t in its) for g, its in self.alts]
        if self.guard is not None or not ws or any(w != ws[0] for w in ws): raise Unsupported('width of a repetition')
        return self.n * ws[0]
    def has(self, k):
        """is there an iteration for k"""
        if self.guard is not None: return SymBool.mk(z3.substitute(self.guard, (self.b, num(k).z())))
        return and_(k >= self.lo, k < self.lo + self.n)
    def body(self, k, shift=True):
        """the tokens of iteration k (counted from 0)"""
        t = num(k + self.lo if shift else k).z()
        pr = [(self.b, t)]
        live = [(z3.substitute(g, *pr), its) for g, its in self.alts]
        for j, (g, its) in enumerate(live):
            if j == len(live) - 1 or builtins.bool(SymBool.mk(g)):
                return [rt.subst_obj(x, pr) for x in its]
    def __repr__(self): return 'star(%s, %s)' % (self.n, self.alts)


class Among:
    """repetition in a specification: one record body(k) for every k with member(k), in any order"""
    def __init__(self, member, body): self.member, self.body = member, body


class Any:
    """a field of which only pred(value) is specified"""
    def __init__(self, pred): self.pred = pred


def fits(v, w): return w.pred(v) if isinstance(w, Any) else rt.sym_eq(v, w)


class Rep:
    """repetition in a specification: body(k) gives the items of iteration k"""
    def __init__(self, n, body): self.n, self.body = n, body


class Data(rt.SubstProto):
    vc_class = bytes
    def __init__(self, toks): self.toks = toks
    def vc_subst(self, pairs, memo): return Data([rt.subst_obj(t, pairs, memo) for t in self.toks])
    def __add__(self, o): return Data(self.toks + todata(o).toks)
    def __radd__(self, o): return Data(todata(o).toks + self.toks)
    def vc_len(self):
        n = 0
        for t in self.toks: n = n + t.width
        return n
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported('bytes.%s of packed data' % k)


def todata(x):
    if isinstance(x, Data): return x
    if isinstance(x, SByte): return Data([Tok('B', x.v)])
    if isinstance(x, SText): raise TypeError('a bytes-like object is required, not str')
    if isinstance(x, SBytes): return Data([Tok('s', SBytes(x.term, x.n), x.n)] + [Tok('B', 0) for _ in range(x.pad)])
    if isinstance(x, (bytes, bytearray)): return Data([Tok('B', b) for b in x])
    raise TypeError('a bytes-like object is required')


def repeat(b, n):
    """b * n for constant bytes b and an unknown integer n"""
    if not n.isint(): raise TypeError("can't multiply sequence by non-int")
    lo, hi = n.bounds()
    if lo is None or lo < 0: n = core.ite_num(n > 0, n, 0)
    if isinstance(n, int): return bytes(b) * n
    return Data([Star(z3.FreshConst(z3.IntSort(), 'rep'), 0, n, [(z3.BoolVal(True), todata(b).toks)])])


def parse(fmt):
    """[(count or width, code)], alignment handled by refusing formats whose native padding differs from the packed layout"""
    if isinstance(fmt, bytes): fmt = fmt.decode()
    if isinstance(fmt, shims.SymStr):
        ps = [p for p in fmt.parts]
        if len(ps) == 2 and isinstance(ps[0], Num) and ps[1] == 's': return [(ps[0], 's')]
        if len(ps) == 3 and ps[0] in ('<', '=') and ps[2] == 's': return [(ps[1], 's')]
        raise Unsupported('format string')
    if '\0' in fmt: raise Unsupported('format string')
    native = not fmt[:1] in ('<', '=', '>', '!')
    if fmt[:1] in ('>', '!'): raise Unsupported('big endian')
    if fmt[:1] in ('<', '=', '@'): fmt = fmt[1:]
    if _struct.calcsize(fmt if native else '<' + fmt) != _struct.calcsize('<' + fmt): raise Unsupported('padding in the format')
    out = []
    for m in re.finditer(r'\s*(\d*)([a-zA-Z?])', fmt):
        n = m.group(1)
        if m.group(2) == 's': out.append((int(n) if n else 1, 's'))
        else:
            if native and m.group(2) in 'lLqQ': raise Unsupported('native long')
            out += [(1, m.group(2))] * (int(n) if n else 1)
    return out


def pack(fmt, *vals):
    out = []
    f = parse(fmt)
    vals = [v for v in vals]
    if len(vals) != len(f): raise error('pack expected %d items' % len(f))
    for (n, c), v in zip(f, vals):
        if isinstance(v, (rt.Poison,)): v._u()
        if c == 's':
            if isinstance(v, SByte): v = Data([Tok('B', v.v)])
            if isinstance(v, (bytes, bytearray)):
                if isinstance(n, Num): raise Unsupported('symbolic width of constant bytes')
                out += [Tok('B', b) for b in _struct.pack('%ds' % n, bytes(v))]
            elif isinstance(v, SBytes) and not isinstance(v, SText):
                L = v.vc_len()
                d = n - L
                if isinstance(d, Num):
                    lo = None
                    for k in range(0, 5):
                        if core.ENG.entails(core.bz(d == k)): lo = k; break
                    if lo is None: raise Unsupported('padding of a string of arbitrary length')
                    d = lo
                if d < 0: raise Unsupported('string truncated by struct')
                out += todata(v).toks + [Tok('B', 0)] * d
            else: raise error("argument for 's' must be a bytes object")
        elif c == 'c':
            if isinstance(v, SByte): out.append(Tok('B', v.v))
            elif isinstance(v, bytes) and len(v) == 1: out.append(Tok('B', v[0]))
            else: raise error('char format requires a bytes object of length 1')
        elif c in 'fd':
            if not isinstance(v, (int, float, Num, OpF)): raise error('required argument is not a float')
            out.append(Tok(c, v))
        elif c in RANGE:
            if isinstance(v, SymBool): v = v.num()
            if not isinstance(v, (int, Num)) or isinstance(v, Num) and v.f: raise error('required argument is not an integer')
            lo, hi = RANGE[c]
            if not builtins.bool(and_(v >= lo, v <= hi)): raise error('argument out of range')
            out.append(Tok(c, v))
        else: raise Unsupported('struct code ' + c)
    return Data(out)


def calcsize(fmt):
    n = 0
    for k, c in parse(fmt): n = n + (k if c == 's' else WIDTH[c])
    return n


def unpack(fmt, buf):
    if not isinstance(buf, Chunk):
        if isinstance(buf, bytes) and isinstance(fmt, str): return _struct.unpack(fmt, buf)
        raise Unsupported('unpack of %s' % type(buf).__name__)
    f = parse(fmt)
    n = calcsize(fmt)
    if not builtins.bool(buf.n == n): raise error('unpack requires a buffer of %s bytes' % n)
    return buf.blob.take(buf.off, f)


def unpack_from(fmt, buf, offset=0):
    if isinstance(buf, Blob): return buf.take(offset, parse(fmt))
    raise Unsupported('unpack_from')


def make_struct():
    m = shims.Mod('struct')
    m.pack, m.unpack, m.calcsize, m.error, m.unpack_from = pack, unpack, calcsize, _struct.error, unpack_from
    class Struct:
        def __init__(s, fmt): s.format = fmt
        def pack(s, *a): return pack(s.format, *a)
        def unpack(s, b): return unpack(s.format, b)
        def unpack_from(s, b, o=0): return unpack_from(s.format, b, o)
        @property
        def size(s): return calcsize(s.format)
    m.Struct = Struct
    return m


def make_gzip():
    m = shims.Mod('gzip')
    def op(path, mode='rb', *a, **k):
        h = core.ENG.opts.get('gzip')
        if h is None: raise Unsupported('gzip.open')
        return h(path, mode)
    m.open = op
    m.GzipFile = op
    return m


# --------------------------------------------------------------------------- output

class Stream(rt.VCBase):
    def __init__(self): self.items = []; self.closed = False
    def write(self, data):
        E = core.ENG
        toks = todata(data).toks
        self.put(toks)
        n = 0
        for t in toks: n = n + t.width
        return n
    def put(self, toks):
        E = core.ENG
        if self.closed: E.check('nothing is written to a closed file', False)
        if E.loopstack and rt.is_outer(self): E.loopstack[-1].effects.append((rt.ref_of(E, self), 'toks', tuple(toks), [], []))
        else: self.items += list(toks)
    def vc_apply_paths(self, paths, bs, seg, extra):
        E = core.ENG
        if extra is not None or seg is None or len(bs) != 1: raise Unsupported('loop with an irregular exit writes to a file')
        alts = []
        for g, effs in paths:
            its = []
            for kind, data, ebs, eg in effs:
                if kind != 'toks' or ebs or eg: raise Unsupported('stream effect')
                its += list(data)
            alts.append((g, its))
        if seg.lo is not None: self.put([Star(bs[0], seg.lo, seg.count(), alts)])
        else: self.put([Star(bs[0], 0, seg.count(), alts, seg.guard_at(bs))])
    def flush(self): pass
    def close(self):
        if core.ENG.loopstack: raise Unsupported('file closed in a loop')
        self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close(); return False


def conc(items):
    """runs of constant fields as bytes: list of ('bytes', b) | Tok | Star | Rep"""
    out = []
    for t in items:
        if isinstance(t, Tok) and t.code in WIDTH and isinstance(t.value, (int, float)) and not isinstance(t.value, bool):
            b = _struct.pack('<' + t.code, t.value) if t.code != 'c' else bytes([t.value])
            if out and isinstance(out[-1], bytes): out[-1] += b
            else: out.append(b)
        else: out.append(t)
    return out


def compare(E, got, want, where=''):
    """obligations: the token sequences denote the same bytes"""
    g, w = conc(got), conc(want)
    i = j = 0
    nm = 'the file has the documented layout'
    def no(a, b): E.check(nm, False, '%s: %r instead of %r' % (where, a, b))
    g, w = list(g), list(w)
    while i < len(g) and j < len(w):
        a, b = g[i], w[j]
        if isinstance(a, bytes) and isinstance(b, bytes):
            n = min(len(a), len(b))
            if a[:n] != b[:n]: return no(a, b)
            g[i], w[j] = a[n:], b[n:]
            if not g[i]: i += 1
            if not w[j]: j += 1
            continue
        if isinstance(a, bytes) or isinstance(b, bytes):
            t, c = (b, a) if isinstance(a, bytes) else (a, b)
            if not isinstance(t, Tok) or t.code not in WIDTH or len(c) < t.width: return no(a, b)
            v, = _struct.unpack('<' + ('B' if t.code == 'c' else t.code), c[:t.width])
            E.check(nm, fits(v, t.value) if isinstance(b, Tok) else rt.sym_eq(t.value, v), where)
            if isinstance(a, bytes):
                g[i] = a[t.width:]; j += 1
                if not g[i]: i += 1
            else:
                w[j] = b[t.width:]; i += 1
                if not w[j]: j += 1
            continue
        if isinstance(a, Tok) and isinstance(b, Tok):
            if a.code in RANGE and b.code in RANGE and a.width == b.width:
                m = 1 << (8 * a.width)
                if isinstance(b.value, Any): E.check(nm, b.value.pred(a.value), where)
                else: E.check(nm, or_(a.value == b.value, *([] if a.code == b.code else [a.value == b.value + m, a.value + m == b.value])), where)
            elif a.code == b.code:
                E.check(nm, and_(rt.sym_eq(a.value, b.value), rt.sym_eq(a.width, b.width)), '%s %r %r' % (where, a.value, b.value))
            else: return no(a, b)
            i += 1; j += 1
            continue
        if isinstance(a, Star) and isinstance(b, Among):
            if core.ENG.choose(2, 'inside'):
                k = core.ENG.fresh_int('record', None, None)
                m = b.member(k)
                its = a.body(k, False) if builtins.bool(a.has(k)) else []
                E.check('there is a record for exactly the documented elements', core.not_(m) if not its else m, where)
                if its: compare(E, its, b.body(k), where + '[k]')
                raise core.Infeasible()
            i += 1; j += 1
            continue
        if isinstance(a, Star) and a.guard is None and isinstance(b, (Rep, Star)):
            E.check('the file has as many records as documented', a.n == b.n, where)
            if core.ENG.choose(2, 'inside'):
                k = core.ENG.fresh_int('record', 0, None)
                E.assume(k < a.n)
                compare(E, a.body(k), b.body(k), where + '[k]')
                raise core.Infeasible()
            i += 1; j += 1
            continue
        return no(a, b)
    if i < len(g) or j < len(w): no(g[i:i + 1], w[j:j + 1])


# --------------------------------------------------------------------------- input

class Chunk:
    def __init__(self, blob, off, n): self.blob, self.off, self.n = blob, off, n
    def vc_len(self): return self.n
    def __getattr__(self, k): raise Unsupported('bytes.%s of file content' % k)
    def __getitem__(self, i):
        if i == 0: return self.blob.take(self.off, [(1, 'B')])[0]
        raise Unsupported('index of file content')


class Blob:
    """the bytes of a file given by items (Tok / Rep)"""
    vc_class = bytes
    def __init__(self, items):
        self.items = items
        self.stars = {}      # name -> path
        self.cache = {}
    def __getitem__(self, s):
        if not isinstance(s, slice): return self.take(s, [(1, 'B')])[0]
        if s.step is not None or s.start is None or s.stop is None: raise Unsupported('slice of the file')
        return Chunk(self, s.start, s.stop - s.start)
    def vc_len(self): raise Unsupported('length of the file')
    # positions -------------------------------------------------------------
    def name(self, path): return 'P!' + '_'.join(map(str, path))
    def body(self, path, ks):
        """items of the list reached by descending: path = item indices, ks = iteration terms (one per index)"""
        key = (path, tuple(z3.simplify(k).get_id() for k in ks))
        if key in self.cache: return self.cache[key][0]
        items = self.items
        for n, (i, k) in enumerate(zip(path, ks)):
            sub = (path[:n + 1], tuple(z3.simplify(x).get_id() for x in ks[:n + 1]))
            if sub in self.cache: items = self.cache[sub][0]; continue
            items = items[i].body(core.ENG.atom(k, (0, None), False) if not isinstance(k, int) else k)
            self.cache[sub] = (items, [x for x in ks])
        return items
    def locate(self, off):
        """(path, ks, items, index): the token that starts at the offset; also the rest (0)"""
        path, ks, idx = (), (), 0
        rest = off
        if isinstance(off, Num):
            for (a, c) in off.t.values():
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name() in self.stars and c == 1:
                    p, end = self.stars[a.decl().name()]
                    args = [a.arg(j) for j in range(a.num_args())]
                    if end: path, ks, idx = p[:-1], tuple(args), p[-1] + 1
                    else: path, ks, idx = p, tuple(args), 0
                    rest = off - Num({a.get_id(): (a, 1)}, 0, False)
                    break
        items = self.body(path, ks) if path else self.items
        while True:
            if isinstance(rest, int):
                if rest == 0: return path, ks, items, idx
                if rest < 0: raise Unsupported('position before a field')
            if idx >= len(items): raise Unsupported('position behind the end')
            t = items[idx]
            if not isinstance(t, Tok): raise Unsupported('position behind a repetition')
            if isinstance(rest, Num) and not isinstance(t.width, Num) or isinstance(t.width, Num):
                d = rest - t.width
                if isinstance(d, Num) and not core.ENG.entails(core.bz(d >= 0)):
                    if core.ENG.entails(core.bz(rest == 0)): return path, ks, items, idx
                    raise Unsupported('position inside a field')
                rest = d
            else: rest = rest - t.width
            if isinstance(rest, int) and rest < 0: raise Unsupported('position inside a field')
            idx += 1
    def take(self, off, f):
        path, ks, items, idx = self.locate(off)
        items = list(items)
        out = []
        for n, c in f:
            if idx >= len(items): raise error('read behind the end of the record')
            t = items[idx]
            if not isinstance(t, Tok): raise Unsupported('a repetition is read as a field')
            if c == 's':
                if isinstance(n, int):      # constant width
                    if t.code in WIDTH and t.width == 1 and all(isinstance(x, Tok) and x.width == 1 and isinstance(x.value, int) for x in items[idx:idx + n]) and idx + n <= len(items):
                        out.append(bytes([x.value for x in items[idx:idx + n]])); idx += n; continue
                if t.code != 's': raise Unsupported('string read over other fields')
                rest = n - t.width
                pad = 0
                idx += 1
                while not (isinstance(rest, int) and rest == 0):
                    if isinstance(rest, Num):
                        if core.ENG.entails(core.bz(rest == 0)): break
                        raise Unsupported('string width')
                    if rest < 0: raise Unsupported('string width')
                    u = items[idx]
                    if not (isinstance(u, Tok) and u.width == 1 and isinstance(u.value, int) and u.value == 0): raise Unsupported('string read over other fields')
                    pad += 1; rest = rest - 1; idx += 1
                v = t.value
                out.append(SBytes(v.term, v.n, v.pad + pad))
                continue
            if t.code not in WIDTH or t.width != WIDTH[c]: raise Unsupported('field of %s bytes read over a field of type %s' % (WIDTH[c], t.code))
            v = t.value
            if c == 'c':
                if t.code not in 'Bc': raise Unsupported('char')
                v = bytes([v]) if isinstance(v, int) else SByte(v)
            elif c in RANGE:
                if t.code not in RANGE: raise Unsupported('integer read over a field of type %s' % t.code)
                if t.code != c:
                    m = 1 << (8 * t.width)
                    if RANGE[c][0] == 0: v = core.ite_num(v >= 0, v, v + m) if not isinstance(v, int) else v % m
                    else: v = core.ite_num(v <= RANGE[c][1], v, v - m) if not isinstance(v, int) else (v if v <= RANGE[c][1] else v - m)
            elif t.code != c: raise Unsupported('float read over a field of type %s' % t.code)
            out.append(v); idx += 1
        return builtins.tuple(out)
    # loops -----------------------------------------------------------------
    def at_star(self, off):
        """the repetition that starts at the offset, or None"""
        if not isinstance(off, (int, Num)) or isinstance(off, bool): return None
        try: path, ks, items, idx = self.locate(off)
        except Unsupported: return None
        if idx < len(items) and not isinstance(items[idx], Tok): return path + (idx,), ks, items[idx]
        return None
    def pos(self, star, k, end=False):
        path, ks, rep = star
        nm = self.name(path) + ('end' if end else '')
        self.stars[nm] = (path, end)
        args = list(ks) + ([] if end else [k])
        f = z3.Function(nm, *([z3.IntSort()] * (len(args) + 1)))
        core.ENG.assumptions_note = None
        return core.ENG.atom(f(*args), (0, None), False)
    def iteration_done(self, star, k, off):
        """is off the end of iteration k of the star"""
        try: path, ks, items, idx = self.locate(off)
        except Unsupported: return False
        return path == star[0] and len(ks) == len(star[1]) + 1 and all(z3.simplify(a).eq(z3.simplify(b)) for a, b in zip(ks, list(star[1]) + [k])) and idx == len(items)


class Ordered(rt.VCBase):
    """a new ordered dictionary whose keys are all different: the list of its items in order"""
    vc_class = dict
    def __init__(self, it=()):
        self.log = rt.TList()
        for k, v in it: self.log.append((k, v))
    def __setitem__(self, k, v):
        if isinstance(k, str) and builtins.any(k == x for x in self._keys()): raise Unsupported('assignment to an existing key')
        self.log.append((k, v))
    def _keys(self): return [x[0] for s in self.log.get_segs() if s.items is not None for x in s.items]
    def __getitem__(self, k):
        if not isinstance(k, str) or self.log.symbolic(): raise Unsupported('lookup in a dictionary of arbitrary keys')
        for a, b in self.log._c():
            if a == k: return b
        raise KeyError(k)
    def get(self, k, d=None):
        try: return self[k]
        except KeyError: return d
    def __contains__(self, k): return builtins.any(a == k for a in self._keys()) if not self.log.symbolic() else self[k]
    def vc_len(self): return self.log.vc_len()
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported('dict.%s' % k)
    __hash__ = None


# --------------------------------------------------------------------------- kaitaistruct

class KaitaiStream(rt.VCBase):
    """contract of kaitaistruct.KaitaiStream over an input buffer"""
    def __init__(self, blob): self.blob = blob; self.at = 0; self.closed = False
    def _take(self, c):
        v, = self.blob.take(self.at, [(1, c)])
        rt.setattr_(self, 'at', self.at + WIDTH[c])
        return v
    def read_u1(self): return self._take('B')
    def read_s1(self): return self._take('b')
    def read_u2le(self): return self._take('H')
    def read_u4le(self): return self._take('I')
    def read_s4le(self): return self._take('i')
    def read_f4le(self): return self._take('f')
    def ensure_fixed_contents(self, expected):
        want = [t.value for t in todata(expected).toks if t.width == 1]
        if len(want) != todata(expected).vc_len(): raise Unsupported('fixed contents')
        got = [self.read_u1() for _ in want]
        if not builtins.bool(and_(*[g == e for g, e in zip(got, want)])): raise Exception('unexpected fixed contents')
        return expected
    def read_bytes(self, n):
        if not isinstance(n, int): raise Unsupported('read_bytes')
        got = [self.read_u1() for _ in range(n)]
        if not all(isinstance(g, int) for g in got): raise Unsupported('read_bytes of arbitrary content')
        return bytes(got)
    def pos(self): return self.at
    def close(self): self.closed = True
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported('KaitaiStream.%s' % k)


class KaitaiStruct(rt.VCBase):
    def __init__(self, io): self._io = io
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): self._io.close()
    @classmethod
    def from_file(cls, filename):
        h = core.ENG.opts.get('open')
        if h is None: raise Unsupported('file')
        return cls(KaitaiStream(h(filename, 'rb')))
    @classmethod
    def from_bytes(cls, buf): return cls(KaitaiStream(buf))
    @classmethod
    def from_io(cls, io): return cls(KaitaiStream(io))


def make_kaitai():
    m = shims.Mod('kaitaistruct')
    m.KaitaiStruct, m.KaitaiStream, m.__version__ = KaitaiStruct, KaitaiStream, '0.11'
    return m


def make_pkg():
    m = shims.Mod('pkg_resources')
    m.parse_version = lambda s: tuple(int(x) for x in s.split('.'))
    return m


shims.EXTRA['kaitaistruct'] = make_kaitai
shims.EXTRA['pkg_resources'] = make_pkg
shims.EXTRA['struct'] = make_struct
shims.EXTRA['gzip'] = make_gzip
shims.BUILTINS['bytes'] = s_bytes
shims.PYT[s_bytes] = bytes
