"""shared harness helpers (used by the verifier and by the bounded search)"""
from redeclipse.vector import BaseVector, FineVector, CoarseVector
from redeclipse.vector import orientations as O
KINDS = {'C': CoarseVector, 'F': FineVector, 'B': BaseVector}
BIG = 1 << 20


def coords(E, name, form, lo=-BIG, hi=BIG):
    """three coordinates: 'int', 'float' (integral floats), 'half' (multiples of 1/2), 'q' (multiples of 1/16)"""
    out = []
    for ax in 'xyz':
        nm = name + '.' + ax
        if form == 'int': out.append(E.int(nm, lo, hi))
        elif form == 'float': out.append(E.int(nm, lo, hi, f=True))
        elif form == 'half': out.append(E.grid(nm, lo, hi, 2))
        else: out.append(E.grid(nm, lo, hi, 16))
    return out


def vec(E, name, kind, form=None, forms=('int', 'half', 'q'), lo=-BIG, hi=BIG):
    if form is None: form = E.choice(name + '.form', forms)
    return KINDS[kind](*coords(E, name, form, lo, hi))


def xyz(v): return (v.x, v.y, v.z)


def eq3(E, v, t):
    return E.And(v.x == t[0], v.y == t[1], v.z == t[2])


def same_kind(v, kind): return type(v) is KINDS[kind]


def turn(t, k):
    """k counter-clockwise quarter turns of a coordinate triple"""
    x, y, z = t
    for _ in range(k % 4): x, y = -y, x
    return (x, y, z)


DIRS = {'EAST': 0, 'NORTH': 1, 'WEST': 2, 'SOUTH': 3}
def card(name): return getattr(O, name)
UNIT = {'EAST': (1, 0, 0), 'NORTH': (0, 1, 0), 'WEST': (-1, 0, 0), 'SOUTH': (0, -1, 0), 'ABOVE': (0, 0, 1), 'BELOW': (0, 0, -1)}
