From a4b947465a6f5a28492a24a816e1c2779ac70f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 01/37] fix: a refused room registration must not leave the
 room in the room list

_register_room appended the room before the occupancy check, so a
registration that raised 'Occupado' still left a room in self.rooms which
was then rendered over the room that occupies the position.
---
 redeclipse/upm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index ae714b3..3b68bef 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -121,7 +121,6 @@ class UnusedPositionManager:
 
     def _register_room(self, room):
         used = room.get_positions()
-        self.rooms.append(room)
         # First, we need to check that ALL of those positions are
         # unoccupied.
         for position in used:
@@ -129,6 +128,7 @@ class UnusedPositionManager:
                 raise Exception("Occupado %s" % position)
         # Otherwise, all positions are fine to use.
 
+        self.rooms.append(room)
         self.occupied.update({pos: room for pos in used})
         # Remove occupied positions from possibilities
         self.unoccupied = [(p, r, o) for (p, r, o) in self.unoccupied if p not in used]
-- 
2.43.0


From 32b06de17b51127cebb1f891cc1ae3a1fdbf886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 02/37] fix: a room must lie within the map to be placeable

_preregister_room only checked that the doors are inside the map, so a room
whose doors are inside but whose own tiles are not was placed beyond the
edge of the world, where its voxels are lost.
---
 redeclipse/upm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 3b68bef..9c5f9ca 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -89,8 +89,10 @@ class UnusedPositionManager:
         for room in rooms:
             used = room.get_positions()
             # First, we need to check that ALL of those positions are
-            # unoccupied.
+            # unoccupied, and that the room stays within the map.
             for position in used:
+                if not self.is_legal(position):
+                    return False
                 if position in self.occupied.keys() or position in added_occupied:
                     return False
             added_occupied = added_occupied.union(set(used))
-- 
2.43.0


From 660e926b2d4ec8edff0937ea23cdb44849828209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 03/37] fix: tile 32 lies outside the 256 voxel map

The maps are 2**8 voxels wide, i.e. they have the tiles 0..31. A room placed
at tile 32 occupies voxels 256..263, which are not part of the octree.
---
 redeclipse/upm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 9c5f9ca..88ed204 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -48,9 +48,9 @@ class UnusedPositionManager:
         :rtype: boolean
         """
         # TODO: dependent on world size.
-        return 0 <= position.x <= 32 and \
-            0 <= position.y <= 32 and \
-            0 <= position.z <= 32
+        return 0 <= position.x < 32 and \
+            0 <= position.y < 32 and \
+            0 <= position.z < 32
 
     def _yield_mirrored(self, room):
         for orientation in self.mirror_rotations:
-- 
2.43.0


From 77e7b7658fbb217d1c59667738a01cd0db9e68ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:11 +0000
Subject: [PATCH 04/37] fix: weighted_choice must not fall off the end of the
 list

sum() and the running sum round differently, so the drawn value can exceed
the last partial sum; None was returned then (a crash in
nonrandom_position, 'None' as a room in random_room).
---
 redeclipse/upm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 88ed204..859cd50 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -241,7 +241,9 @@ class UnusedPositionManager:
             if upto + w >= r:
                 return c
             upto += w
-        return None
+        # Rounding: the running sum may stay (slightly) below the drawn value.
+        possible = [c for c, w in choices if w > 0]
+        return possible[-1] if possible else None
 
     def random_room(self, connecting_room, room_options):
         """Pick out a random room based on the connecting room and the
-- 
2.43.0


From 7f8ff7c6bc72a8c4003a9c6565b194ffef557185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:50 +0000
Subject: [PATCH 05/37] fix: choose the random options of a room before
 choosing its door

room_localization picked the connecting door on a room with default options
and then built the offered room with random ones. For rooms whose options
decide about their doors (SpawnRoom, NLongCorridor, CrossingWalkways,
JumpCorridorVerticalCenter) the offered room then had no door at the open
door it was placed for.
---
 redeclipse/upm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 859cd50..a75c8be 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -299,6 +299,9 @@ class UnusedPositionManager:
             # not be necessary but it doesn't hurt anything.
             for orientation in random.sample(CARDINALS, 4):
                 kwargs = {'orientation': orientation}
+                # Add our random options. This must happen before we look at
+                # the doors, for some rooms the options decide which exist.
+                kwargs.update(roomClass.randOpts(prev_room))
                 # Initialize room, required to correctly calculate get_positions()/get_doorways()
                 r = roomClass(pos=CoarseVector(2, 2, 3), **kwargs)
                 # We've already picked a prev_room_door (and we know its orientation)
@@ -314,8 +317,6 @@ class UnusedPositionManager:
                 for chosen_door in options:
                     # Room offset
                     room_offset = chosen_door['offset'] - prev_room_door + prev_room_orientation
-                    # Add our random options
-                    kwargs.update(roomClass.randOpts(prev_room))
                     # Last, we yield all possible versions of this room (in case
                     # some of them don't fit.)
                     r = roomClass(pos=CoarseVector(2, 2, 3) - room_offset, **kwargs)
-- 
2.43.0


From 25650b749b20b1c27ed2def738b61ba76f053abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:38 +0000
Subject: [PATCH 06/37] fix: close the map file after writing it

---
 redeclipse/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 3f67c1f..71d33f9 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -144,6 +144,7 @@ class Map:
         self._savechildren(handle, self.world)
         self.pbar_0.close()
         # self.pbar_1.close()
+        handle.close()
 
     def _write_custom(self, handle, fmt, data):
         handle.write(struct.pack(fmt, *data))
-- 
2.43.0


From 178adda42bb916ac3956c5cc4fab5938201cad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:38 +0000
Subject: [PATCH 07/37] fix: write byte fields above 127 as one byte

---
 redeclipse/__init__.py          | 2 +-
 redeclipse/entities/__init__.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 71d33f9..8ef7ffe 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -153,7 +153,7 @@ class Map:
         handle.write(struct.pack('B', char))
 
     def _write_int_as_chr(self, handle, data):
-        handle.write(struct.pack('c', str.encode(chr(data))))
+        handle.write(struct.pack('B', data))
 
     def _write_int(self, handle, value):
         if isinstance(value, int):
diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index f023699..bb87c3c 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -60,8 +60,8 @@ class Entity:
         )
 
     def serialize(self):
-        return [self.o.x, self.o.y, self.o.z, str.encode(chr(self.type.value))] + \
-            [str.encode(chr(x)) for x in self.reserved]
+        return [self.o.x, self.o.y, self.o.z, bytes([self.type.value])] + \
+            [bytes([x]) for x in self.reserved]
 
     def to_dict(self):
         data = {
-- 
2.43.0


From 188105d24b835f11c6d833db86d936f6fa878a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:38 +0000
Subject: [PATCH 08/37] fix: the first attribute of a player start is a team,
 not a weapon

---
 redeclipse/entities/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index bb87c3c..f9df349 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -15,7 +15,6 @@ class Entity:
                 'type', 'flags', 'modes', 'muts', 'id'
             ]
         elif self.type == EntType.ET_PLAYERSTART:
-            self.attrs[0] = WeaponType(self.attrs[0])
             self.attr_annotations = [
                 'team', 'yaw', 'pitch', 'modes', 'muts', 'id'
             ]
-- 
2.43.0


From 8970e41a5499102099dce75163f0d8a11a2310a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:38 +0000
Subject: [PATCH 09/37] fix: a skybox is a map variable, not a header field

---
 redeclipse/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 8ef7ffe..9a94d13 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -329,7 +329,7 @@ class Map:
         Attach a skybox to the map
         """
         # pass
-        self.meta['skybox'] = sb.get_short_path()
+        self.map_vars[b'skybox'] = tb(sb.get_short_path())
 
 
 class MapParser(object):
-- 
2.43.0


From 70f38459c80d605d75f600a8a33225ce566e6c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:38 +0000
Subject: [PATCH 10/37] fix: store the number of map variables that is written

---
 redeclipse/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 9a94d13..522e23d 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -98,6 +98,7 @@ class Map:
         self._write_int(handle, self.headersize)
         # Write the header block
         self.meta['numents'] = len(self.ents)
+        self.meta['numvars'] = len(self.map_vars)
         for key in self.meta:
             if key in ('gameident', 'skybox', 'z'):
                 self._write_str(handle, tb(self.meta[key]))
-- 
2.43.0


From 5ff74aad496f3fbe1e01f5c30a4206ee5bbe0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:38 +0000
Subject: [PATCH 11/37] fix: map variables given as text can be saved

---
 redeclipse/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 522e23d..8700d62 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -121,6 +121,7 @@ class Map:
                 self._write_int(handle, 1)
                 self._write_float(handle, value)
             elif var_type in ('bytes', 'str'):
+                value = tb(value)
                 self._write_int(handle, 2)
                 self._write_int(handle, len(value))
                 self._write_str(handle, value)
-- 
2.43.0


From 3f8d616e83da814ef9834bbb0f7d8b14f26d6e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:02 +0000
Subject: [PATCH 12/37] fix: do not overwrite the marker of the first octant
 before saving

---
 redeclipse/cli/__init__.py              | 1 -
 redeclipse/cli/magicavoxel_room_test.py | 1 -
 redeclipse/cli/perlin.py                | 1 -
 redeclipse/cli/rooms.py                 | 1 -
 redeclipse/cli/snow_forest.py           | 1 -
 redeclipse/cli/vector_test.py           | 1 -
 6 files changed, 6 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index f6ce541..341841e 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -32,7 +32,6 @@ def output(v, mymap, upm, prefabs, args):
                 handle.write(line + '\n')
 
         mymap.world = v.to_octree()
-        mymap.world[0].octsav = 0
         mymap.write(args.mpz_out.name)
 
     if args.graph:
diff --git a/redeclipse/cli/magicavoxel_room_test.py b/redeclipse/cli/magicavoxel_room_test.py
index 4e4e999..0d83eab 100644
--- a/redeclipse/cli/magicavoxel_room_test.py
+++ b/redeclipse/cli/magicavoxel_room_test.py
@@ -90,7 +90,6 @@ def main(magica=False, redeclipse=False):
                 prefabs.TEXMAN.copy_data()
 
                 mymap.world = v.to_octree()
-                mymap.world[0].octsav = 0
                 mymap.write(mpz_out.name)
 
 
diff --git a/redeclipse/cli/perlin.py b/redeclipse/cli/perlin.py
index 999ccdc..31b79a2 100644
--- a/redeclipse/cli/perlin.py
+++ b/redeclipse/cli/perlin.py
@@ -73,7 +73,6 @@ def main():
                     v.set_point(i, j, k, cube.newtexcube(tex=q))
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(args.output)
 
 
diff --git a/redeclipse/cli/rooms.py b/redeclipse/cli/rooms.py
index f5b9811..fd64796 100644
--- a/redeclipse/cli/rooms.py
+++ b/redeclipse/cli/rooms.py
@@ -83,7 +83,6 @@ def main(mpz_in, mpz_out, size=2**7, seed=42, rooms=200, debug=False, magica=Non
         print('voxel')
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(mpz_out.name)
 
 
diff --git a/redeclipse/cli/snow_forest.py b/redeclipse/cli/snow_forest.py
index 4b923b2..e6d400b 100644
--- a/redeclipse/cli/snow_forest.py
+++ b/redeclipse/cli/snow_forest.py
@@ -140,7 +140,6 @@ def main():
                 mymap.ents.append(rock)
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(args.output)
 
 
diff --git a/redeclipse/cli/vector_test.py b/redeclipse/cli/vector_test.py
index 63f0314..a6304ab 100644
--- a/redeclipse/cli/vector_test.py
+++ b/redeclipse/cli/vector_test.py
@@ -47,7 +47,6 @@ def main(mpz_in, redeclipse=None, magica=None, world_size=2**7):
         TEXMAN.emit_conf(redeclipse)
         TEXMAN.copy_data()
         mymap.world = v.to_octree()
-        mymap.world[0].octsav = 0
         mymap.write(redeclipse.name)
 
 
-- 
2.43.0


From 754a5aa6226dd3000e7f36a328685911d207f9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:02 +0000
Subject: [PATCH 13/37] fix: magica_rooms without --mirror

---
 redeclipse/cli/magica_rooms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/cli/magica_rooms.py b/redeclipse/cli/magica_rooms.py
index f3b1aa7..3c8444a 100644
--- a/redeclipse/cli/magica_rooms.py
+++ b/redeclipse/cli/magica_rooms.py
@@ -131,7 +131,7 @@ if __name__ == '__main__':
     parser.add_argument('--rooms', default=200, type=int, help="Number of rooms to place")
     parser.add_argument('--debug', action='store_true', help="Debugging")
     parser.add_argument('--ctf', action='store_true', help="Include flags for CTFs")
-    parser.add_argument('--mirror', type=int, choices=[1, 2, 4], help="Mirror mode (1 = unmirrored, 2 = 2-way mirroring, 4 = 4-way mirroring)")
+    parser.add_argument('--mirror', type=int, default=2, choices=[1, 2, 4], help="Mirror mode (1 = unmirrored, 2 = 2-way mirroring, 4 = 4-way mirroring)")
     parser.add_argument('--flavor', nargs='*', choices=redeclipse.worldflavors.choices)
     args = parser.parse_args()
     # Build our map
-- 
2.43.0


From c4d0cca6fac503136e62199c2179e98c5b2ac02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:00 +0000
Subject: [PATCH 14/37] fix: lights can be placed without automatic centring

---
 redeclipse/lighting/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/lighting/__init__.py b/redeclipse/lighting/__init__.py
index 03eb654..cb41a34 100644
--- a/redeclipse/lighting/__init__.py
+++ b/redeclipse/lighting/__init__.py
@@ -37,6 +37,7 @@ class LightManager:
 
         :param boolean autocenter: Automatically add FineVector(4, 4, 4) to the position
         """
+        pos = position
         if autocenter:
             pos = position + TILE_CENTER + HALF_HEIGHT
 
-- 
2.43.0


From 3365b618d63a496034878f473c41e2c15f60ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:00 +0000
Subject: [PATCH 15/37] fix: weapons, player starts and models accept coarse
 positions

---
 redeclipse/entities/__init__.py | 2 +-
 redeclipse/entities/model.py    | 2 +-
 redeclipse/entities/weapon.py   | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index f9df349..a18e81e 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -99,7 +99,7 @@ class Entity:
 class PlayerSpawn(Entity):
 
     def __init__(self, xyz=(0, 0, 0), team=0, yaw=0, pitch=0, modes=0, muts=0, id=0, links=None, reserved=None):
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_PLAYERSTART
         self.attr_annotations = [
             'team', 'yaw', 'pitch', 'modes', 'muts', 'id'
diff --git a/redeclipse/entities/model.py b/redeclipse/entities/model.py
index 9708c1c..4e23c37 100644
--- a/redeclipse/entities/model.py
+++ b/redeclipse/entities/model.py
@@ -9,7 +9,7 @@ class MapModel(Entity):
                  scale=0, flags=0, colour=0, palette=0, palindex=0, spinyaw=0,
                  spinpitch=0, spinroll=0, links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_MAPMODEL
         self.attrs = [
             type, yaw, pitch, roll, blend, scale, flags, colour, palette,
diff --git a/redeclipse/entities/weapon.py b/redeclipse/entities/weapon.py
index 85592c1..659acb1 100644
--- a/redeclipse/entities/weapon.py
+++ b/redeclipse/entities/weapon.py
@@ -8,7 +8,7 @@ class Weapon(Entity):
     def __init__(self, xyz, type=0, flags=0, modes=0, muts=0, id=0,
                  links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_WEAPON
         self.attr_annotations = [
             'type', 'flags', 'modes', 'muts', 'id'
@@ -25,7 +25,7 @@ class Grenade(Entity):
     def __init__(self, xyz, flags=0, modes=0, muts=0, id=0,
                  links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_WEAPON
         self.attr_annotations = [
             'type', 'flags', 'modes', 'muts', 'id'
@@ -42,7 +42,7 @@ class Shotgun(Entity):
     def __init__(self, xyz, flags=0, modes=0, muts=0, id=0,
                  links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_WEAPON
         self.attr_annotations = [
             'type', 'flags', 'modes', 'muts', 'id'
-- 
2.43.0


From 21cae81fbe0c891fcb0031cd609f7277ff0270a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:00 +0000
Subject: [PATCH 16/37] fix: map models name their attributes

---
 redeclipse/entities/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redeclipse/entities/model.py b/redeclipse/entities/model.py
index 4e23c37..6027fea 100644
--- a/redeclipse/entities/model.py
+++ b/redeclipse/entities/model.py
@@ -11,6 +11,11 @@ class MapModel(Entity):
 
         self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_MAPMODEL
+        self.attr_annotations = [
+            'type', 'yaw', 'pitch', 'roll', 'blend', 'scale', 'flags',
+            'colour', 'palette', 'palindex', 'spinyaw', 'spinpitch',
+            'spinroll'
+        ]
         self.attrs = [
             type, yaw, pitch, roll, blend, scale, flags, colour, palette,
             palindex, spinyaw, spinpitch, spinroll
-- 
2.43.0


From aa93f767e432b299049d08ef8c79ff1114ac8f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:32 +0000
Subject: [PATCH 17/37] fix: unknown texture categories yield a texture number

---
 redeclipse/textures/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 3f1ea2f..93957f2 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -210,7 +210,7 @@ class ThemedTextureManager(TextureManager):
         elif category == 'accent':
             return self.get(random.choice(self.theme.AccentMaterial))
 
-        return random.choice(self.theme.GenericMaterial)
+        return self.get(random.choice(self.theme.GenericMaterial))
 
     def discover_textures(self):
         super().discover_textures()
-- 
2.43.0


From 14d7ca1c793f42349e1cea7fe5aeebb38dbcc099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:32 +0000
Subject: [PATCH 18/37] fix: end the texcolor line of bump mapped textures

---
 redeclipse/textures/basetex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/basetex.py b/redeclipse/textures/basetex.py
index d6aa77a..4bf3f08 100644
--- a/redeclipse/textures/basetex.py
+++ b/redeclipse/textures/basetex.py
@@ -92,7 +92,7 @@ texture s "{0.basepath}/{0.s}"
 """.format(self, idx=idx)
 
         if self.texcolor:
-            conf += "texcolor %s %s %s" % self.texcolor
+            conf += "texcolor %s %s %s\n" % self.texcolor
         return conf
 
 
-- 
2.43.0


From 863041277c31a61b34f86f571c17b0644b1ed4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:32 +0000
Subject: [PATCH 19/37] fix: the dull theme names only textures that exist

---
 redeclipse/textures/dull_theme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/textures/dull_theme.py b/redeclipse/textures/dull_theme.py
index 5048c4f..235cd4f 100644
--- a/redeclipse/textures/dull_theme.py
+++ b/redeclipse/textures/dull_theme.py
@@ -3,13 +3,13 @@ from itertools import chain
 
 GenericMaterial = [
     'tex%s' % x for x in
-    range(4, 9)
+    range(4, 8)
 ]
 
 
 FloorMaterial = [
     'tex%s' % x for x in
-    chain(range(4, 8), [9], range(92, 116), range(504, 505))
+    chain(range(4, 8), [9], range(92, 115), range(504, 505))
 ]
 
 
-- 
2.43.0


From 0102946e9da53190e80acb348caae38913616513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:32 +0000
Subject: [PATCH 20/37] fix: equal colours get one texture number

---
 redeclipse/textures/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 93957f2..2f65768 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -251,7 +251,7 @@ class AutomatedMagicaTextureManager(TextureManager):
         return self._get_colour(r, g, b)
 
     def _get_colour(self, r, g, b):
-        name = 'c_%s_%s_%s' % (r, g, b)
+        name = 'c_%s_%s_%s' % (float(r), float(g), float(b))
         if name not in self.atlas_backref:
             tmp = SimpleColourTex()
             tmp.r = r
-- 
2.43.0


From ce6c9cff8a87480ddac42cecaf1cdb2c2e8c018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:54 +0000
Subject: [PATCH 21/37] fix: leave the two *_test.py scripts as they were

---
 redeclipse/cli/magicavoxel_room_test.py | 1 +
 redeclipse/cli/vector_test.py           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/redeclipse/cli/magicavoxel_room_test.py b/redeclipse/cli/magicavoxel_room_test.py
index 0d83eab..4e4e999 100644
--- a/redeclipse/cli/magicavoxel_room_test.py
+++ b/redeclipse/cli/magicavoxel_room_test.py
@@ -90,6 +90,7 @@ def main(magica=False, redeclipse=False):
                 prefabs.TEXMAN.copy_data()
 
                 mymap.world = v.to_octree()
+                mymap.world[0].octsav = 0
                 mymap.write(mpz_out.name)
 
 
diff --git a/redeclipse/cli/vector_test.py b/redeclipse/cli/vector_test.py
index a6304ab..63f0314 100644
--- a/redeclipse/cli/vector_test.py
+++ b/redeclipse/cli/vector_test.py
@@ -47,6 +47,7 @@ def main(mpz_in, redeclipse=None, magica=None, world_size=2**7):
         TEXMAN.emit_conf(redeclipse)
         TEXMAN.copy_data()
         mymap.world = v.to_octree()
+        mymap.world[0].octsav = 0
         mymap.write(redeclipse.name)
 
 
-- 
2.43.0


From c05405116a87d36f08a44889b63db48e1769bbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:05 +0000
Subject: [PATCH 22/37] fix: abstract texture classes are not textures of a
 theme

---
 redeclipse/textures/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 2f65768..2097fa3 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -217,6 +217,10 @@ class ThemedTextureManager(TextureManager):
         for cls in dir(self.textures):
             mod = getattr(self.textures, cls)
             if 'type' in str(type(mod)):
+                # Abstract base classes (no image of their own) are imported
+                # into the theme modules, but are not textures.
+                if getattr(mod, 'c', True) is None:
+                    continue
                 if any(['redeclipse.textures.' in str(c) for c in mod.__bases__]):
                     self.texref[cls.lower()] = mod()
 
-- 
2.43.0


From 8957c479a82150789cc54a8a08bf18f8583dff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:31 +0000
Subject: [PATCH 23/37] fix: the palette of a .vox file has 256 colours

---
 redeclipse/magicavoxel/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index 0b69018..ba70f77 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -41,5 +41,5 @@ def to_magicavoxel(voxel_world, handle, texman):
     for idx, (tex_key, tex) in enumerate(texman.atlas.items()):
         handle.write(struct.pack('BBBB', n(tex.r), n(tex.g), n(tex.b), 255))  # white
 
-    for i in range(255 - len(texman.atlas)):
+    for i in range(256 - len(texman.atlas)):
         handle.write(struct.pack('BBBB', 0, 0, 0, 255))  # white
-- 
2.43.0


From 1d563c49e06b2f7282d56d62484746b24c57e248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:31 +0000
Subject: [PATCH 24/37] fix: the children of MAIN include the 12 bytes of the
 SIZE chunk

---
 redeclipse/magicavoxel/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index ba70f77..58664b0 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -7,7 +7,7 @@ def to_magicavoxel(voxel_world, handle, texman):
     handle.write(struct.pack('i', 150))
     handle.write(struct.pack('4s', b'MAIN'))
     handle.write(struct.pack('i', 0))  # Chunk size
-    handle.write(struct.pack('i', cs + 36 + 1024))  # child chunk size TODO
+    handle.write(struct.pack('i', cs + 48 + 1024))  # child chunk size TODO
     # Size chunk
     handle.write(struct.pack('4s', b'SIZE'))
     handle.write(struct.pack('i', 12))
-- 
2.43.0


From 97e6fc2a110b3e90f275c124a66aa45921f1a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:31 +0000
Subject: [PATCH 25/37] fix: count only the exported voxels in the .vox header

---
 redeclipse/magicavoxel/writer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index 58664b0..b7e9d95 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -2,7 +2,12 @@ import struct
 
 
 def to_magicavoxel(voxel_world, handle, texman):
-    cs = 4 * (1 + len(voxel_world.world))
+    # Only voxels which fit in a model can be exported.
+    voxels = [
+        ((x, y, z), value) for ((x, y, z), value) in voxel_world.world.items()
+        if 0 <= x <= 255 and 0 <= y <= 255 and 0 <= z <= 255
+    ]
+    cs = 4 * (1 + len(voxels))
     handle.write(struct.pack('4s', b'VOX '))
     handle.write(struct.pack('i', 150))
     handle.write(struct.pack('4s', b'MAIN'))
@@ -19,14 +24,12 @@ def to_magicavoxel(voxel_world, handle, texman):
     handle.write(struct.pack('4s', b'XYZI'))
     handle.write(struct.pack('i', cs))  # chunk size TODO
     handle.write(struct.pack('i', 0))  # child chunk size
-    handle.write(struct.pack('i', len(voxel_world.world)))  # numvoxels
+    handle.write(struct.pack('i', len(voxels)))  # numvoxels
 
     def m(x):
         return int(x)
 
-    for ((x, y, z), value) in voxel_world.world.items():
-        if x > 255 or y > 255 or z > 255 or x < 0 or y < 0 or z < 0:
-            continue
+    for ((x, y, z), value) in voxels:
         handle.write(struct.pack('BBBB', m(x), m(y), m(z), m(value.texture[0] + 1)))
         # handle.write(struct.pack('BBBB', m(x), m(y), m(z), 1))
 
-- 
2.43.0


From bf5c00265ee542b6564935f2914fbb4588a551ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:31 +0000
Subject: [PATCH 26/37] fix: the size of a .vox model encloses its outermost
 voxels

---
 redeclipse/magicavoxel/writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index b7e9d95..dad7df8 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -17,9 +17,9 @@ def to_magicavoxel(voxel_world, handle, texman):
     handle.write(struct.pack('4s', b'SIZE'))
     handle.write(struct.pack('i', 12))
     handle.write(struct.pack('i', 0))
-    handle.write(struct.pack('i', int(voxel_world.xmax)))  # x
-    handle.write(struct.pack('i', int(voxel_world.ymax)))  # y
-    handle.write(struct.pack('i', int(voxel_world.zmax)))  # z
+    handle.write(struct.pack('i', int(min(voxel_world.xmax, 255)) + 1))  # x
+    handle.write(struct.pack('i', int(min(voxel_world.ymax, 255)) + 1))  # y
+    handle.write(struct.pack('i', int(min(voxel_world.zmax, 255)) + 1))  # z
     # xyzi chunk
     handle.write(struct.pack('4s', b'XYZI'))
     handle.write(struct.pack('i', cs))  # chunk size TODO
-- 
2.43.0


From 253fef72383f90c887561d62b9767d96433515f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:54 +0000
Subject: [PATCH 27/37] fix: dump cube extensions with absent surfaces

---
 redeclipse/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index 245090b..f593275 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -157,7 +157,7 @@ class cubext:
             'surfaceinfo': self.surfaceinfo,
             'maxverts': self.maxverts,
             'verts': self.verts,
-            'surfaces': [x.to_dict() for x in self.surfaces],
+            'surfaces': [x.to_dict() if x else None for x in self.surfaces],
         }
 
     @classmethod
-- 
2.43.0


From 264deac71487fe93a13dc68a18493fe8168add52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:54 +0000
Subject: [PATCH 28/37] fix: include the merge byte in the dump of a cube

---
 redeclipse/objects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index f593275..b393dee 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -217,6 +217,7 @@ class cube:
             'faces': [f.name for f in self.faces],
             'texture': [t if isinstance(t, int) else t.value for t in self.texture],
             'material': self.material,
+            'merged': self.merged,
             'escaped': self.escaped,
             'visible': self.visible,
             'octsav': self.octsav,
-- 
2.43.0


From e5624c92960f425f1116230b3f81b9b585243a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:05 +0000
Subject: [PATCH 29/37] fix: dump weapon entities whose type is still a plain
 number

---
 redeclipse/entities/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index a18e81e..dc74840 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -75,7 +75,7 @@ class Entity:
             data['attr'][key] = value
 
         if self.type == EntType.ET_WEAPON:
-            data['attr']['type'] = data['attr']['type'].name
+            data['attr']['type'] = WeaponType(data['attr']['type']).name
 
         data['attr']['_order'] = self.attr_annotations
 
-- 
2.43.0


From b1abfe769f2c65b82613a8f19b03cc5f555d29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:06 +0000
Subject: [PATCH 30/37] fix: rebuild entities from their dump at the dumped
 position

---
 redeclipse/entities/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index dc74840..cfa8588 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -1,5 +1,6 @@
 from redeclipse.vector.re import ivec3
 from redeclipse.enums import EntType, WeaponType
+from redeclipse.vector import FineVector
 
 
 class Entity:
@@ -85,9 +86,8 @@ class Entity:
     def from_dict(cls, d):
         attrs = [d['attr'][x] if isinstance(d['attr'][x], int) else WeaponType[d['attr'][x]] for x in d['attr']['_order']]
         e = Entity(
-            x=d['position'][0],
-            y=d['position'][1],
-            z=d['position'][2],
+            # The dumped position is the stored one, in quarters of fine units.
+            xyz=FineVector(*d['position']) / 4,
             type=EntType[d['type']],
             attrs=attrs,
             links=d['links'],
-- 
2.43.0


From 48435b62e9ac67b7daca4ca5fb8b4819a2c53a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:06 +0000
Subject: [PATCH 31/37] fix: dump map variables and meta values which are not
 UTF-8

---
 redeclipse/__init__.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 8700d62..b3a95c8 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -24,6 +24,16 @@ def tb(str_or_bytes):
         return str_or_bytes
 
 
+def tt(value):
+    """
+    Convert bytes to text which can be converted back, whatever their encoding
+    """
+    if isinstance(value, bytes):
+        return value.decode('utf-8', 'surrogateescape')
+    else:
+        return value
+
+
 class Map:
     """
     Base redeclipse map object, contains everything needed for the
@@ -276,8 +286,8 @@ class Map:
             'magic': bytes.decode(self.magic),
             'version': self.version,
             'headersize': self.headersize,
-            'meta': [(key, bytes.decode(value) if isinstance(value, bytes) else value) for (key, value) in self.meta.items()],
-            'map_vars': [(bytes.decode(key), bytes.decode(value) if isinstance(value, bytes) else value) for (key, value) in self.map_vars.items()],
+            'meta': [(key, tt(value)) for (key, value) in self.meta.items()],
+            'map_vars': [(tt(key), tt(value)) for (key, value) in self.map_vars.items()],
             'texmru': self.texmru,
             'entities': [ent.to_dict() for ent in self.ents],
             'world': (x.to_dict() for x in self.world),
@@ -303,10 +313,10 @@ class Map:
 
         map_vars = OrderedDict()
         for (key, value) in data['map_vars']:
+            key = key.encode('utf-8', 'surrogateescape')
             if isinstance(value, str):
-                map_vars[str.encode(key)] = str.encode(value)
-            else:
-                map_vars[str.encode(key)] = value
+                value = value.encode('utf-8', 'surrogateescape')
+            map_vars[key] = value
 
         # TODO
         world = {}
-- 
2.43.0


From 804bb466cb703da7626763dc245d07cba9577fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:46 +0000
Subject: [PATCH 32/37] fix: turn pushers about the tile centre, as the voxels
 around them

---
 redeclipse/prefabs/__init__.py              | 12 ++++++------
 redeclipse/prefabs/spacestation/__init__.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index a10de65..b27d677 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -10,7 +10,7 @@ from redeclipse.vector import CoarseVector, FineVector
 from redeclipse.vector.orientations import rotate_yaw, SELF, \
     SOUTH, NORTH, WEST, EAST, ABOVE, \
     ABOVE_FINE, NORTHWEST, \
-    NORTHEAST, SOUTHWEST, SOUTHEAST, TILE_CENTER, HALF_HEIGHT
+    NORTHEAST, SOUTHWEST, SOUTHEAST, TILE_CENTER, TILE_VOX_OFF, HALF_HEIGHT
 
 import random  # noqa
 # import math
@@ -318,14 +318,14 @@ class JumpCorridor3(Room):
         (a, b, c) = self.pos
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(7, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(7, 4, 1).offset_rotate(self.orientation, offset=TILE_VOX_OFF),
             maxrad=15 * SIZE_OFFSET,
             yaw=rotate_yaw(270, self.orientation),
             force=175 * SIZE_OFFSET,
         )
 
         pusher_b = Pusher(
-            xyz=self.pos + (EAST + EAST + FineVector(1, 4, 1)).rotate(self.orientation),
+            xyz=self.pos + (EAST + EAST + FineVector(1, 4, 1)).offset_rotate(self.orientation, offset=TILE_VOX_OFF),
             maxrad=15 * SIZE_OFFSET,
             yaw=rotate_yaw(90, self.orientation),
             force=175 * SIZE_OFFSET,
@@ -380,7 +380,7 @@ class JumpCorridorVertical(Room):
         self.light(xmap)
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(5, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(5, 4, 1).offset_rotate(self.orientation, offset=TILE_VOX_OFF),
             pitch=74,
             yaw=rotate_yaw(270, self.orientation),
             force=400 * SIZE_OFFSET,
@@ -388,7 +388,7 @@ class JumpCorridorVertical(Room):
         xmap.ents.append(pusher_a)
 
         pusher_b = Pusher(
-            xyz=self.pos + FineVector(6, 4, 17).rotate(self.orientation),
+            xyz=self.pos + FineVector(6, 4, 17).offset_rotate(self.orientation, offset=TILE_VOX_OFF),
             pitch=40,
             yaw=rotate_yaw(90, self.orientation),
             force=200 * SIZE_OFFSET,
@@ -469,7 +469,7 @@ class JumpCorridorVerticalCenter(JumpCorridorVertical):
             force = 700 * SIZE_OFFSET
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(4, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(4, 4, 1).offset_rotate(self.orientation, offset=TILE_VOX_OFF),
             pitch=90,
             maxrad=5,
             yaw=rotate_yaw(0, self.orientation),
diff --git a/redeclipse/prefabs/spacestation/__init__.py b/redeclipse/prefabs/spacestation/__init__.py
index cd335d1..65b7f4e 100644
--- a/redeclipse/prefabs/spacestation/__init__.py
+++ b/redeclipse/prefabs/spacestation/__init__.py
@@ -8,7 +8,7 @@ from redeclipse.entities.weapon import Grenade, Shotgun
 from redeclipse.vector import FineVector
 from redeclipse.vector.orientations import EAST, SOUTH, ABOVE, WEST, NORTH
 from redeclipse.vector.orientations import NORTHWEST, NORTHEAST, SOUTHWEST, SOUTHEAST
-from redeclipse.vector.orientations import TILE_CENTER, ABOVE_FINE
+from redeclipse.vector.orientations import TILE_CENTER, TILE_VOX_OFF, ABOVE_FINE
 from redeclipse.vector.orientations import rotate_yaw
 from redeclipse.entities import TeamFlag
 from redeclipse.prefabs import LIGHTMAN
@@ -264,7 +264,7 @@ class station_tube_jumpx(MagicaRoom):
         LIGHTMAN.light(xmap, self.pos + (EAST + NORTH + ABOVE).rotate(self.orientation), size_factor=2)
 
         pusher_a = Pusher(
-            xyz=self.pos + (EAST + NORTH + FineVector(4, 5, 12)).rotate(self.orientation),
+            xyz=self.pos + (EAST + NORTH + FineVector(4, 5, 12)).offset_rotate(self.orientation, offset=TILE_VOX_OFF),
             pitch=90,
             maxrad=1,
             yaw=rotate_yaw(0, self.orientation),
-- 
2.43.0


From 235c03b781f24cd802419c0af30e8be8f536fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:46 +0000
Subject: [PATCH 33/37] fix: draw the pole offset from whole numbers

---
 redeclipse/prefabs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index b27d677..f55dd14 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -652,7 +652,7 @@ class PoleRoom(_LargeRoom):
                         length = FineVector(1, 1, 8 * self._height)
                         voff = ABOVE_FINE
                     else:
-                        offset = random.randint(1, 8 * self._height / 2)
+                        offset = random.randint(1, 8 * self._height // 2)
                         length = FineVector(1, 1, (8 * self._height) - (2 * offset))
                         voff = (ABOVE_FINE * offset)
 
-- 
2.43.0


From 44b9afd446847913304673e06338cfb9ff5f7b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:46 +0000
Subject: [PATCH 34/37] fix: clear the ring room doorways only inside the room

---
 redeclipse/prefabs/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index f55dd14..1cd5bf3 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -764,10 +764,10 @@ class ImposingRingRoom(_LargeRoom):
             for i in range(2, self._height * 8 - 1, 2):
                 self.x('ring', world, FineVector(-2, -2, i), 12, tex=accent_tex)
 
-        self.x('rectangular_prism', world, FineVector(-4, 2, 1), FineVector(3, 4, 8), subtract=True)
-        self.x('rectangular_prism', world, FineVector(2, -4, 1), FineVector(4, 3, 8), subtract=True)
-        self.x('rectangular_prism', world, FineVector(9, 2, 1), FineVector(3, 4, 8), subtract=True)
-        self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, 8), subtract=True)
+        self.x('rectangular_prism', world, FineVector(-4, 2, 1), FineVector(3, 4, 7), subtract=True)
+        self.x('rectangular_prism', world, FineVector(2, -4, 1), FineVector(4, 3, 7), subtract=True)
+        self.x('rectangular_prism', world, FineVector(9, 2, 1), FineVector(3, 4, 7), subtract=True)
+        self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, 7), subtract=True)
 
     def light(self, xmap):
         LIGHTMAN.light(xmap, self.pos + NORTH + HALF_HEIGHT + TILE_CENTER)
-- 
2.43.0


From d8a36a091dde3e98e15c848019667b2d05260a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:46 +0000
Subject: [PATCH 35/37] fix: claim the space above the egypt stairs which their
 doors open to

---
 redeclipse/prefabs/egypt/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/redeclipse/prefabs/egypt/__init__.py b/redeclipse/prefabs/egypt/__init__.py
index 11faf6b..22c582a 100644
--- a/redeclipse/prefabs/egypt/__init__.py
+++ b/redeclipse/prefabs/egypt/__init__.py
@@ -24,6 +24,10 @@ class stair(MagicaRoom):
         {'orientation': EAST, 'offset': EAST + ABOVE},
     ]
 
+    def _get_positions(self):
+        # The space above the steps, which leads to the upper door
+        return super()._get_positions() + [ABOVE]
+
 
 class stair_toplatform(MagicaRoom):
     name = 'stair_toplatform'
@@ -37,6 +41,10 @@ class stair_toplatform(MagicaRoom):
         {'orientation': SOUTH, 'offset': EAST + SOUTH + ABOVE},
     ]
 
+    def _get_positions(self):
+        # The space above the platform, which leads to the upper doors
+        return super()._get_positions() + [EAST + ABOVE]
+
 
 class statue(MagicaRoom):
     name = 'statue'
-- 
2.43.0


From ee8dac80e133dc73f738eab09cae0174721ca2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:37 +0000
Subject: [PATCH 36/37] fix: the light of a large room stands in the room, not
 at its position turned about the map origin

---
 redeclipse/prefabs/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 1cd5bf3..fb0d355 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -615,8 +615,9 @@ class _LargeRoom(_3X3Room):
         h = 6
         if self._height > 1:
             h = 12
-        position = self.pos + NORTH + TILE_CENTER + FineVector(0, 0, h)
-        LIGHTMAN.light(xmap, position.rotate(self.orientation))
+        # pos is the centre tile, whichever way the room faces
+        position = self.pos + TILE_CENTER + FineVector(0, 0, h)
+        LIGHTMAN.light(xmap, position, autocenter=False)
 
 
 class PoleRoom(_LargeRoom):
-- 
2.43.0


From 9ecd530c8a489d06d4b2af78866adaafa2b15702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:37 +0000
Subject: [PATCH 37/37] fix: the lights of the crossing walkways stand in the
 room, not at the map origin

---
 redeclipse/prefabs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index fb0d355..a6b88e9 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -899,7 +899,7 @@ class CrossingWalkways(_LargeRoom):
 
     def light(self, xmap):
         for i in range(self._height):
-            LIGHTMAN.light(xmap, SELF + (ABOVE * i))
+            LIGHTMAN.light(xmap, self.pos + (ABOVE * i))
 
 
 class PlusPlatform(_LargeRoom):
-- 
2.43.0

