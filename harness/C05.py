from pyvc.hapi import Registry
from hlib import *
CONTRACTS = Registry()
V = 'redeclipse.vector.'


@CONTRACTS('addition', functions=[V + c + '.' + m for c in ('BaseVector', 'FineVector', 'CoarseVector') for m in ('__init__', '__add__')] + [V + 'CoarseVector.fine', V + 'FineVector.fine'], cover=['end'])
def addition(E):
    ka, kb = E.choice('kinds', ['CC', 'FF', 'CF', 'FC', 'BB'])
    a, b = vec(E, 'a', ka), vec(E, 'b', kb)
    a0, b0 = xyz(a), xyz(b)
    s = a + b
    mixed = ka != kb
    sa, sb = (8 if mixed and ka == 'C' else 1), (8 if mixed and kb == 'C' else 1)
    E.check('sum is component-wise', eq3(E, s, [x * sa + y * sb for x, y in zip(a0, b0)]))
    E.check('kind of the sum', same_kind(s, 'F' if mixed else ka))
    E.check('operands unchanged', E.And(eq3(E, a, a0), eq3(E, b, b0), type(a) is KINDS[ka], type(b) is KINDS[kb]))
    E.check('sum is a new object', s is not a and s is not b)
    E.cover('end')


@CONTRACTS('subtraction', functions=[V + c + '.__sub__' for c in ('BaseVector', 'FineVector', 'CoarseVector')], cover=['end'])
def subtraction(E):
    ka, kb = E.choice('kinds', ['CC', 'FF', 'CF', 'FC', 'BB'])
    a, b = vec(E, 'a', ka), vec(E, 'b', kb)
    a0, b0 = xyz(a), xyz(b)
    s = a - b
    mixed = ka != kb
    sa, sb = (8 if mixed and ka == 'C' else 1), (8 if mixed and kb == 'C' else 1)
    E.check('difference is component-wise', eq3(E, s, [x * sa - y * sb for x, y in zip(a0, b0)]))
    E.check('kind of the difference', same_kind(s, 'F' if mixed else ka))
    E.check('operands unchanged', E.And(eq3(E, a, a0), eq3(E, b, b0)))
    E.cover('end')


@CONTRACTS('group laws', functions=[V + c + '.' + m for c in ('FineVector', 'CoarseVector') for m in ('__add__', '__sub__')], cover=['end'])
def laws(E):
    ks = E.choice('kinds', ['CCC', 'FFF', 'CFC', 'FCF', 'CCF', 'FCC', 'BBB'])
    f = E.choice('form', ['int', 'half'])
    a, b, c = [vec(E, n, k, f) for n, k in zip('abc', ks)]
    E.check('commutative', eq3(E, a + b, xyz(b + a)))
    E.check('commutative kind', type(a + b) is type(b + a))
    E.check('associative', eq3(E, (a + b) + c, xyz(a + (b + c))))
    E.check('associative kind', type((a + b) + c) is type(a + (b + c)))
    d = (a + b) - b
    fa = a.fine() if ks[0] == 'C' and ks[1] == 'F' else a
    E.check('subtraction undoes addition', eq3(E, d, xyz(fa)))
    E.cover('end')


@CONTRACTS('scaling', functions=[V + 'BaseVector.__mul__', V + 'BaseVector.__truediv__', V + 'BaseVector.__floordiv__'], cover=['end'])
def scaling(E):
    k = E.choice('kind', 'CFB')
    a = vec(E, 'a', k, lo=-(1 << 15), hi=1 << 15)
    a0 = xyz(a)
    m = E.int('m', -1024, 1024)
    p = a * m
    E.check('product is component-wise', E.And(*[x * m == y for x, y in zip(a0, xyz(p))]))
    E.check('kind of the product', same_kind(p, k))
    d = E.choice('d', [1, 2, 4, 8, -1, -2, 16, 0.5])
    q = a / d
    E.check('quotient is exact', E.And(*[y * d == x for x, y in zip(a0, xyz(q))]))
    E.check('kind of the quotient', same_kind(q, k))
    n = E.choice('n', [1, 2, 4, 8, 16, -2, -8])
    fl = a // n
    for x, y in zip(a0, xyz(fl)):
        r = x - y * n
        E.check('floor quotient', E.And(r >= 0, r < n) if n > 0 else E.And(r <= 0, r > n))
        E.check('floor quotient is integral', E.floor(y) == y)
    E.check('kind of the floor quotient', same_kind(fl, k))
    E.check('operand unchanged', eq3(E, a, a0))
    E.cover('end')




@CONTRACTS('tile conversion', functions=[V + 'CoarseVector.fine', V + 'FineVector.fine', V + 'FineVector.coarse', V + 'CoarseVector.entity', V + 'FineVector.entity', V + 'BaseVector.vox'], cover=['end'])
def tiles(E):
    c = vec(E, 'c', 'C')
    c0 = xyz(c)
    f = c.fine()
    E.check('coarse to fine multiplies by 8', E.And(same_kind(f, 'F'), eq3(E, f, [8 * x for x in c0])))
    E.check('entity of coarse', E.And(same_kind(c.entity(), 'F'), eq3(E, c.entity(), [32 * x for x in c0])))
    p = vec(E, 'p', 'F')
    p0 = xyz(p)
    E.check('fine of fine', E.And(same_kind(p.fine(), 'F'), eq3(E, p.fine(), p0)))
    t = p.coarse()
    E.check('kind of the tile', same_kind(t, 'C'))
    for x, y in zip(p0, xyz(t)):
        E.check('tile contains the point', E.And(8 * y <= x, x < 8 * y + 8))
        E.check('tile is integral', E.floor(y) == y)
    E.check('entity of fine', E.And(same_kind(p.entity(), 'F'), eq3(E, p.entity(), [4 * x for x in p0])))
    for k in 'CFB':
        w = vec(E, 'w' + k, k)
        w0 = xyz(w)
        v = w.vox()
        E.check('vox kind', same_kind(v, k))
        for x, y in zip(w0, xyz(v)): E.check('vox is the floor', E.And(y <= x, x < y + 1, E.floor(y) == y))
        E.check('vox operand unchanged', eq3(E, w, w0))
    E.check('operands unchanged', E.And(eq3(E, c, c0), eq3(E, p, p0)))
    E.check('round trip through the tile', eq3(E, vec_int(E).fine().coarse(), E.i0))
    E.cover('end')


def vec_int(E):
    v = vec(E, 'i', 'C', 'int')
    E.i0 = xyz(v)
    return v


@CONTRACTS('iteration and indexing', functions=[V + 'BaseVector.__iter__', V + 'BaseVector.__getitem__', V + 'BaseVector.__len__'], cover=['end'])
def iteration(E):
    a = vec(E, 'a', E.choice('kind', 'CFB'))
    x, y, z = a
    E.check('iteration yields x, y, z', E.And(x == a.x, y == a.y, z == a.z))
    E.check('indexing', E.And(a[0] == a.x, a[1] == a.y, a[2] == a.z))
    E.check('three components', len(a) == 3)
    i = E.choice('i', [3, -1, 7])
    E.check('index error', E.raises(lambda: a[i], Exception) is not None)
    E.cover('end')
