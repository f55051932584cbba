from pyvc.hapi import Registry
from hlib import *
CONTRACTS = Registry()
V = 'redeclipse.vector.'
EQ = [V + c + '.__eq__' for c in ('BaseVector', 'FineVector', 'CoarseVector')]


def pos(v): 
    s = 8 if type(v) is CoarseVector else 1
    return (v.x * s, v.y * s, v.z * s)


def hsh(E, v): return type(v).__hash__(v)


@CONTRACTS('equality', functions=EQ + [V + 'CoarseVector.fine'], cover=['equal', 'different'])
def equality(E):
    ks = E.choice('kinds', ['CC', 'FF', 'CF', 'FC', 'BB'])
    a, b = vec(E, 'a', ks[0]), vec(E, 'b', ks[1])
    if not E.sym and E.bool('copy'):
        s = (8 if ks == 'FC' else 1)
        b0 = xyz(b)
        if ks == 'CF': b = FineVector(*[8 * t for t in xyz(a)])
        elif ks == 'FC': a = FineVector(*[8 * t for t in xyz(b)])
        else: b = KINDS[ks[1]](*xyz(a))
        if E.bool('perturb'): 
            ax = E.choice('ax', 'xyz')
            setattr(b, ax, getattr(b, ax) + E.choice('d', [1, -1, 0.5, 8, 1024, 1 << 20]))
    r = (a == b)
    same = E.And(*[x == y for x, y in zip(pos(a), pos(b))])
    E.check('equal exactly when the positions are equal', E.Iff(r, same))
    E.check('symmetric', E.Iff(b == a, r))
    E.check('reflexive', a == a)
    E.check('unequal is the negation', E.Iff(a != b, E.Not(r)))
    E.cover('equal') if r else E.cover('different')


@CONTRACTS('transitivity of equality', functions=EQ, cover=['end'])
def transitivity(E):
    ks = E.choice('kinds', ['CCC', 'FFF', 'CFC', 'FCF', 'CFF', 'FFC', 'BBB'])
    f = E.choice('form', ['int', 'half'])
    a, b, c = [vec(E, n, k, f) for n, k in zip('abc', ks)]
    E.check('transitive', E.Implies(E.And(E.Not(a != b), E.Not(b != c)), a == c))
    E.cover('end')


@CONTRACTS('other types are different', functions=EQ, cover=['end'])
def others(E):
    a = vec(E, 'a', E.choice('kind', 'CFB'))
    o = E.choice('other', [None, 3, 'CV(0, 0, 0)', (0, 0, 0), 1.5])
    E.check('a vector is not equal to another kind of value', E.Not(a == o))
    E.cover('end')


@CONTRACTS('hash', functions=[V + c + '.__hash__' for c in ('BaseVector', 'FineVector', 'CoarseVector')], cover=['equal'])
def hashing(E):
    k = E.choice('kind', 'CFB')
    fa, fb = E.choice('forms', [('int', 'int'), ('int', 'float'), ('float', 'half'), ('half', 'int'), ('q', 'half')])
    a = vec(E, 'a', k, fa)
    b = vec(E, 'b', k, fb)
    if not E.sym: b = KINDS[k](*[type(t)(u) if fb != 'int' or u == int(u) else u for t, u in zip(xyz(b), xyz(a))])
    ha = hsh(E, a)
    E.check('equal vectors have equal hashes', E.Implies(a == b, ha == hsh(E, b)))
    E.check('the hash is an integer', ha == E.floor(ha))
    E.check('hashing leaves the vector alone and is stable', hsh(E, a) == ha)
    if a == b: E.cover('equal')


def lex(E, a, b):
    p, q = xyz(a), xyz(b)
    return E.Or(p[0] < q[0], E.And(p[0] == q[0], p[1] < q[1]), E.And(p[0] == q[0], p[1] == q[1], p[2] < q[2]))


def near(E, a, b):
    """concrete mode: make ties frequent"""
    if not E.sym:
        for ax in 'xyz':
            if E.bool('tie' + ax): setattr(b, ax, getattr(a, ax))


@CONTRACTS('ordering', functions=[V + 'BaseVector.__lt__', V + 'BaseVector.__le__'] + EQ, cover=['less', 'not less'])
def ordering(E):
    k = E.choice('kind', 'CFB')
    f = E.choice('form', ['int', 'half'])
    a, b = vec(E, 'a', k, f), vec(E, 'b', k, f)
    near(E, a, b)
    lt = a < b
    E.check('lexicographic', E.Iff(lt, lex(E, a, b)))
    gt = b < a
    eq = a == b
    E.check('trichotomy', E.Or(E.And(lt, E.Not(gt), E.Not(eq)), E.And(E.Not(lt), gt, E.Not(eq)), E.And(E.Not(lt), E.Not(gt), eq)))
    E.check('<= means < or =', E.Iff(a <= b, E.Or(lt, eq)))
    E.check('> mirrors <', E.Iff(a > b, gt))
    E.check('>= mirrors <=', E.Iff(a >= b, b <= a))
    E.cover('less') if lt else E.cover('not less')


@CONTRACTS('transitivity of the order', functions=[V + 'BaseVector.__lt__'], cover=['end'])
def order_trans(E):
    k = E.choice('kind', 'CFB')
    a, b, c = [vec(E, n, k, 'half') for n in 'abc']
    near(E, a, b); near(E, b, c)
    if a < b and b < c:
        E.check('transitive', a < c)
        E.cover('end')


@CONTRACTS('sorting agrees with the order', functions=[V + 'BaseVector.__lt__'], cover=['end'])
def sorting(E):
    k = E.choice('kind', 'CF')
    a, b, c = [vec(E, n, k, 'int', lo=-4, hi=4) for n in 'abc']
    s = sorted([a, b, c])
    E.check('sorted is non-decreasing', E.And(E.Not(lex(E, s[1], s[0])), E.Not(lex(E, s[2], s[1]))))
    E.cover('end')
