"""an arbitrary voxel world (symbolic content in the verifier, random content in the bounded search)"""
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.enums import Faces
KIND = ('t', 'n', 'n', 'n')
VW = 'redeclipse.voxel.VoxelWorld.'


def solid_textures(c):
    """the six texture numbers of a well-formed solid leaf cube, or None"""
    if isinstance(c, str) or not isinstance(c, cube): return None
    if c.children is not None or list(c.faces) != [Faces.F_SOLID] * 3 or c.octsav & 7 != 3 or c.octsav & 0x20 == 0 or c.material is not None: return None
    if c.ext is None or len(c.ext.surfaces) != 6 or len(c.edges) != 12 or len(c.texture) != 6: return None
    return list(c.texture)


class World:
    """content is looked at through (present?, solid textures or identity of the value)"""
    def __init__(self, E, pts=(), size=64, bounds=True, lo=-4, hi=12, voxels=12, empty=False):
        self.E = E
        self.w = VoxelWorld(size)
        self.size = size
        if E.sym:
            import z3
            from pyvc import rt, core
            self.z3, self.rt, self.core = z3, rt, core
            I, B = z3.IntSort(), z3.BoolSort()
            P0, V0 = z3.Function('world_has', I, I, I, B), z3.Function('world_val', I, I, I, I)
            class Codec:
                def sorts(s): return [I] * 8
                def enc(s, v):
                    t = solid_textures(v)
                    if t is None: return [core.ENG.intern_id(v)] + [z3.IntVal(0)] * 7
                    return [z3.IntVal(-1), z3.IntVal(1)] + [core.num(x).z() for x in t]
                def dec(s, ts):
                    t = core.ENG.settle(ts[0])
                    o = core.ENG.object_of(t)
                    if o is not None: return o[0]
                    return core.Opaque(ts[0], 'voxel')
            d = rt.TDict()
            d.codec = Codec()
            d.kind = KIND
            d.sym = True
            if empty: d.base = lambda k: (z3.BoolVal(False), [z3.IntVal(0)] * 8)
            else: d.base = lambda k: (P0(*k), [V0(*k)] + [z3.IntVal(0)] * 7)
            self.w.world = d
            self.P0 = (lambda *k: z3.BoolVal(False)) if empty else P0
            self.V0 = V0
            if not bounds and hasattr(self.w, '_update_boundaries'): E.patch(self.w, '_update_boundaries', lambda x, y, z: None)     # contract of its own in C04
        else:
            pts = list(pts)
            for i in range(0 if empty else E.int('voxels', 0, voxels)):
                p = E.choice('at', pts) if pts and E.bool('onshape') else tuple(E.int('vox.' + a, lo, hi) for a in 'xyz')
                self.w.world[tuple(p)] = 'old%d' % i
            self.before = dict(self.w.world)

    def _k(self, q): return [self.core.num(c).z(2) for c in q]
    def _look(self, q): return self.w.world.lookup((KIND, self._k(q)))
    def has0(self, q):
        if self.E.sym: return self.core.SymBool.mk(self.P0(*self._k(q)))
        return tuple(q) in self.before
    def has(self, q): return self.E.Not(self.absent(q))
    def absent(self, q):
        if self.E.sym: return self.core.SymBool.mk(self.z3.Not(self._look(q)[0]))
        return self.w.world.get(tuple(q)) is None
    def same(self, q):
        """as it was"""
        if self.E.sym:
            z3 = self.z3
            P, V = self._look(q)
            k = self._k(q)
            return self.core.SymBool.mk(z3.And(P == self.P0(*k), z3.Implies(P, V[0] == self.V0(*k))))
        return self.w.world.get(tuple(q)) is self.before.get(tuple(q))
    def holds(self, q, v):
        """the very value v"""
        if self.E.sym:
            z3 = self.z3
            P, V = self._look(q)
            return self.core.SymBool.mk(z3.And(P, *[a == b for a, b in zip(V, self.w.world.enc(v))]))
        return self.w.world.get(tuple(q)) is v
    def solid(self, q, tex):
        if self.E.sym:
            z3 = self.z3
            P, V = self._look(q)
            return self.core.SymBool.mk(z3.And(P, V[0] == -1, V[1] == 1, *[a == self.core.num(t).z() for a, t in zip(V[2:], tex)]))
        t = solid_textures(self.w.world.get(tuple(q)))
        return t is not None and t == list(tex)


def point(E, name, pts=(), lo=None, hi=None):
    if E.sym: return tuple(E.int(name + '.' + a, -(1 << 20) if lo is None else lo, 1 << 20 if hi is None else hi) for a in 'xyz')
    pts = list(pts)
    if pts and E.bool(name + '.on'): return tuple(int(c) for c in E.choice(name + '.i', pts))
    return tuple(E.int(name + '.' + a, -4 if lo is None else lo, 12 if hi is None else hi) for a in 'xyz')
