ref('vars-helper', 'C01 C02', [('__init__.py', '''        # Write the map vars
        for key in self.map_vars:
            var_name = key
            value = self.map_vars[key]
            var_type = type(self.map_vars[key]).__name__

            self._write_int(handle, len(var_name))
            self._write_str(handle, var_name)

            if var_type == 'int':
                self._write_int(handle, 0)
                self._write_int(handle, value)
            elif var_type == 'float':
                self._write_int(handle, 1)
                self._write_float(handle, value)
            elif var_type in ('bytes', 'str'):
                value = tb(value)
                self._write_int(handle, 2)
                self._write_int(handle, len(value))
                self._write_str(handle, value)
            else:
                raise Exception("Can't handle " + var_type)
''', '''        # Write the map vars
        for (var_name, value) in self.map_vars.items():
            self._write_var(handle, var_name, value)
'''), ('__init__.py', '''    def _write_custom(self, handle, fmt, data):''', '''    def _write_var(self, handle, name, value):
        self._write_int(handle, len(name))
        self._write_str(handle, name)

        if isinstance(value, int):
            self._write_int(handle, 0)
            self._write_int(handle, value)
            return
        if isinstance(value, float):
            self._write_int(handle, 1)
            self._write_float(handle, value)
            return
        if not isinstance(value, (bytes, str)):
            raise Exception("Can't handle " + type(value).__name__)
        data = tb(value)
        self._write_int(handle, 2)
        self._write_int(handle, len(data))
        self._write_str(handle, data)

    def _write_custom(self, handle, fmt, data):''')])
ref('ents-list', 'C01 C02', [('__init__.py', '''            self._write_int(handle, len(ent.attrs))
            for at in ent.attrs:
                self._write_int(handle, at)

            self._write_int(handle, len(ent.links))
            for ln in ent.links:
                self._write_int(handle, ln)
''', '''            for numbers in (ent.attrs, ent.links):
                self._write_int(handle, len(numbers))
                for number in numbers:
                    self._write_int(handle, number)
'''), ('__init__.py', '''            numattr = self._read_int()
            attrs = []
            for j in range(numattr):
                attrs.append(self._read_int())

            link_count = self._read_int()
            links = []
            for j in range(link_count):
                links.append(self._read_int())

            e = Entity(FineVector(x, y, z) / 4, EntType(ord(etype)), attrs, links, reserved)
            ents.append(e)
''', '''            attrs = self._read_ints()
            links = self._read_ints()

            position = FineVector(x, y, z) / 4
            ents.append(Entity(position, EntType(ord(etype)), attrs, links, reserved))
'''), ('__init__.py', '''    def _loadents(self, numents):''', '''    def _read_ints(self):
        return [self._read_int() for _ in range(self._read_int())]

    def _loadents(self, numents):''')])
ref('savec-kind', 'C01 C02', [('__init__.py', '''        self._write_int_as_chr(handle, c.octsav)
        if c.octsav & 0x7 == OCT.OCTSAV_CHILDREN.value:
            self._savechildren(handle, c.children, indent=indent + 1)
            return
        elif c.octsav & 0x7 == OCT.OCTSAV_EMPTY.value:
            pass  # Nothing to write
        elif c.octsav & 0x7 == OCT.OCTSAV_SOLID.value:
            pass  # Nothing to write, simply that c is solid
        elif c.octsav & 0x7 == OCT.OCTSAV_NORMAL.value:
            self._write_custom(handle, 'BBBBBBBBBBBB', c.edges)
        elif c.octsav & 0x7 == OCT.OCTSAV_LODCUBE.value:
            # Nothing to do, this just set c.children, which we know
            # from other sources.
            pass
        else:
            sys.exit(42)
            return

        for i, t in enumerate(c.texture):
            if isinstance(t, TextNum):
                self._write_ushort(handle, t.value)
            else:
                self._write_ushort(handle, t)
''', '''        marker = c.octsav
        kind = OCT(marker & 0x7) if marker & 0x7 <= 4 else None
        self._write_int_as_chr(handle, marker)
        if kind is OCT.OCTSAV_CHILDREN:
            self._savechildren(handle, c.children, indent=indent + 1)
            return
        if kind is None:
            sys.exit(42)
        if kind is OCT.OCTSAV_NORMAL:
            self._write_custom(handle, '12B', c.edges)

        for t in c.texture:
            number = t.value if isinstance(t, TextNum) else t
            self._write_ushort(handle, number)
'''), ('__init__.py', '''                if not c.surfmask & (1 << i):
                    pass
                else:
                    surfinfo = c.ext.surfaces[i]

                    self._write_char(handle, surfinfo.lmid[0])
                    self._write_char(handle, surfinfo.lmid[1])
                    self._write_char(handle, surfinfo.verts)
                    self._write_char(handle, surfinfo.numverts)

                    if surfinfo.verts == 0:
                        continue
                    else:
                        raise NotImplementedError("Gross out")
''', '''                if not (c.surfmask >> i) & 1:
                    continue
                surfinfo = c.ext.surfaces[i]
                fields = (surfinfo.lmid[0], surfinfo.lmid[1], surfinfo.verts, surfinfo.numverts)
                for field in fields:
                    self._write_char(handle, field)

                if surfinfo.verts != 0:
                    raise NotImplementedError("Gross out")
''')])
ref('loadc-flat', 'C01', [('__init__.py', '''        if octsav & 0x7 == OCT.OCTSAV_CHILDREN.value:
            c.children = self._loadchildren(size >> 1, failed, indent=indent + 1)
            return False, c
        elif octsav & 0x7 == OCT.OCTSAV_EMPTY.value:
            c.setfaces(Faces.F_EMPTY)
        elif octsav & 0x7 == OCT.OCTSAV_SOLID.value:
            c.setfaces(Faces.F_SOLID)
        elif octsav & 0x7 == OCT.OCTSAV_NORMAL.value:
            c.edges = self._read_custom('BBBBBBBBBBBB', 12)
        elif octsav & 0x7 == OCT.OCTSAV_LODCUBE.value:
            c.haschildren = True
        else:
            failed = True
            return failed, c

        c.texture = []
        for i in range(6):
            c.texture.append(self._read_ushort())
''', '''        kind = octsav % 8
        if kind == OCT.OCTSAV_CHILDREN.value:
            c.children = self._loadchildren(size // 2, failed, indent=indent + 1)
            return False, c
        simple = {OCT.OCTSAV_EMPTY.value: Faces.F_EMPTY, OCT.OCTSAV_SOLID.value: Faces.F_SOLID}
        if kind in simple:
            c.setfaces(simple[kind])
        elif kind == OCT.OCTSAV_NORMAL.value:
            c.edges = tuple(self._read_char() for _ in range(12))
        elif kind == OCT.OCTSAV_LODCUBE.value:
            c.haschildren = True
        else:
            return True, c

        c.texture = [self._read_ushort() for _ in range(6)]
''')])
ref('loadchildren-comp', 'C01', [('__init__.py', '''        cube_arr = cube.newcubes(Faces.F_EMPTY, 0)
        for i in range(8):
            failed, c_x = self._loadc(
                cube_arr[i],  # c
                size,
                failed,
                indent=indent
            )
            cube_arr[i] = c_x

            if failed:
                break
        return cube_arr
''', '''        octants = cube.newcubes(Faces.F_EMPTY, 0)
        i = 0
        while i < len(octants) and not failed:
            (failed, octants[i]) = self._loadc(octants[i], size, failed, indent=indent)
            i += 1
        return octants
''')])
ref('read-vars-helper', 'C01', [('__init__.py', '''            # String
            if var_type == 2:
                var_len = self._read_int()
                var_val = self._read_str(var_len)
            elif var_type == 1:
                var_val = self._read_float()
            elif var_type == 0:
                var_val = self._read_int()
            else:
                # Cannot recover
                raise Exception("Don't know how to handle map prop type %s", var_type)

            map_vars[var_name] = var_val
''', '''            map_vars[var_name] = self._read_value(var_type)
'''), ('__init__.py', '''    def read(self, base_path):''', '''    def _read_value(self, var_type):
        if var_type == 0:
            return self._read_int()
        if var_type == 1:
            return self._read_float()
        if var_type == 2:
            # String
            return self._read_str(self._read_int())
        # Cannot recover
        raise Exception("Don't know how to handle map prop type %s", var_type)

    def read(self, base_path):'''), ('__init__.py', '''        texmru = []
        nummru = self._read_ushort()
        log.debug('Nummru %s', nummru)
        for i in range(nummru):
            texmru.append(self._read_ushort())
''', '''        nummru = self._read_ushort()
        log.debug('Nummru %s', nummru)
        texmru = [self._read_ushort() for i in range(nummru)]
''')])
ref('room-loc-helper', 'C13 C22', [('upm.py', '''                roomClass_doors = r.get_doorways()
                # Find a door that is facing in the opposite direction as prev_room_orientation
                options = [x for x in roomClass_doors if x['orientation'] == prev_room_orientation.rotate(180)]
                # If we don't have any options, continue, let's try a different orientation.
                if len(options) == 0:
                    continue
                # If we do have doors though, choose a door on our new room that's
                # in the correct orientation
                for chosen_door in options:
                    # Room offset
                    room_offset = chosen_door['offset'] - prev_room_door + prev_room_orientation
                    # Last, we yield all possible versions of this room (in case
                    # some of them don't fit.)
                    r = roomClass(pos=CoarseVector(2, 2, 3) - room_offset, **kwargs)
                    # If the room can be registered in this position, safely, ONLY
                    # then do we yield it.
                    if self.preregister_room(r):
                        yield r
''', '''                # Find the doors facing in the opposite direction as prev_room_orientation
                wanted = prev_room_orientation.rotate(180)
                for chosen_door in r.get_doorways():
                    if chosen_door['orientation'] != wanted:
                        continue
                    # Last, we yield all possible versions of this room (in case
                    # some of them don't fit.)
                    candidate = roomClass(pos=self._room_position(chosen_door, prev_room_door, prev_room_orientation), **kwargs)
                    # If the room can be registered in this position, safely, ONLY
                    # then do we yield it.
                    if not self.preregister_room(candidate):
                        continue
                    yield candidate

    def _room_position(self, door, prev_room_door, prev_room_orientation):
        return CoarseVector(2, 2, 3) - (door['offset'] - prev_room_door + prev_room_orientation)
'''), ('upm.py', '''                # Ensure all room positions are legal
                if not all([self.is_legal(pos) for pos in r.get_positions()]):
                    continue

                # Ensure all room positions are not occupied
                if not all([pos not in self.occupied.keys() for pos in r.get_positions()]):
                    continue

                return r
''', '''                # Ensure all room positions are legal and not occupied
                used = r.get_positions()
                if all(self.is_legal(pos) and pos not in self.occupied for pos in used):
                    return r
        return None
''')])
ref('place-loop', 'C13 C22', [('upm.py', '''            while True:
                # Continually try and place rooms until we hit 200.
                if room_count >= rooms:
                    logging.info("Placed enough rooms")
                    break

                if len(self.unoccupied) == 0:
                    logging.info("Ran out of unoccupied positions")
                    break
''', '''            while room_count < rooms:
                # Continually try and place rooms until we hit 200.
                if not self.unoccupied:
                    logging.info("Ran out of unoccupied positions")
                    break
'''), ('upm.py', '''                (prev_room_door, prev_room, prev_room_orientation) = self.nonrandom_position(self.nrp_flavour_vertical)
                for r in''', '''                chosen = self.nonrandom_position(self.nrp_flavour_vertical)
                (prev_room_door, prev_room, prev_room_orientation) = chosen
                for r in'''), ('upm.py', '''                    self.unoccupied = [
                        (d, r, o) for (d, r, o) in self.unoccupied
                        if (d, r, o) != (prev_room_door, prev_room, prev_room_orientation)
                    ]
''', '''                    self.unoccupied = [entry for entry in self.unoccupied if entry != chosen]
''')])
ref('register-flat', 'C11 C12', [('upm.py', '''        self.occupied.update({pos: room for pos in used})
        # Remove occupied positions from possibilities
        self.unoccupied = [(p, r, o) for (p, r, o) in self.unoccupied if p not in used]
''', '''        for pos in used:
            self.occupied[pos] = room
        # Remove occupied positions from possibilities
        self.unoccupied = list(filter(lambda entry: entry[0] not in used, self.unoccupied))
'''), ('upm.py', '''        for position in doors:
            # logging.info("  pos: %s => leg:%s occ:%s", position['offset'], self.is_legal(position['offset']), position['offset'] in self.occupied)
            # If that door position is not occupied by something else
            if self.is_legal(position['offset']) and not position['offset'] in self.occupied.keys():
                # and cache in our doorway list
                self.unoccupied.append((position['offset'], room, position['orientation']))
''', '''        for door in doors:
            where = door['offset']
            # Skip doors that lead off the map or into something else
            if not self.is_legal(where) or where in self.occupied:
                continue
            # and cache in our doorway list
            self.unoccupied.append((where, room, door['orientation']))
''')])
ref('tex-get', 'C15', [('textures/__init__.py', '''    def get(self, name):
        if name not in self.atlas_backref:
            # Insert tex
            tex = self.texref[name]
            pos = len(self.atlas)
            self.atlas[pos] = tex
            # Now insert backref
            self.atlas_backref[name] = pos
        return self.atlas_backref[name]

    def random(self):''', '''    def get(self, name):
        if name in self.atlas_backref:
            return self.atlas_backref[name]
        return self._add(name, self.texref[name])

    def _add(self, name, tex):
        number = len(self.atlas)
        self.atlas_backref[name] = number
        self.atlas[number] = tex
        return number

    def random(self):'''), ('textures/__init__.py', '''            for idx, (tex_key, tex) in enumerate(self.atlas.items()):
                handle.write(tex.conf(idx=idx))
''', '''            for number in sorted(self.atlas):
                handle.write(self.atlas[number].conf(idx=number))
'''), ('textures/__init__.py', '''        if name not in self.atlas_backref:
            tmp = SimpleColourTex()
            tmp.r = r
            tmp.g = g
            tmp.b = b
            self.texref[name] = tmp
            # Insert tex
            tex = self.texref[name]
            pos = len(self.atlas)
            self.atlas[pos] = tex
            # Now insert backref
            self.atlas_backref[name] = pos
        return self.atlas_backref[name]
''', '''        if name not in self.texref:
            tex = SimpleColourTex()
            (tex.r, tex.g, tex.b) = (r, g, b)
            self.texref[name] = tex
        return self.get(name)
''')])
ref('tex-getc', 'C15', [('textures/__init__.py', '''        if category == 'generic':
            return self.get(random.choice(self.theme.GenericMaterial))
        elif category == 'column':
            return self.get(random.choice(self.theme.ColumnMaterial))
        elif category == 'floor':
            return self.get(random.choice(self.theme.FloorMaterial))
        elif category == 'wall':
            return self.get(random.choice(self.theme.WallMaterial))
        elif category == 'accent':
            return self.get(random.choice(self.theme.AccentMaterial))

        return self.get(random.choice(self.theme.GenericMaterial))
''', '''        materials = {
            'column': self.theme.ColumnMaterial,
            'floor': self.theme.FloorMaterial,
            'wall': self.theme.WallMaterial,
            'accent': self.theme.AccentMaterial,
        }.get(category, self.theme.GenericMaterial)
        return self.get(random.choice(materials))
'''), ('textures/__init__.py', '''        if category == 'generic':
            return self.get_colour(0, 0, 0)
        elif category == 'column':
            return self.get_colour(0.5, 0.5, 0.5)
        elif category == 'floor':
            return self.get_colour(0.1, 0.1, 0.1)
        elif category == 'wall':
            return self.get_colour(0.9, 0.9, 0.9)
        elif category == 'accent':
            return self.get_colour(1, 0, 0)

        return self.get_colour(0, 0, 1)
''', '''        colours = {
            'generic': (0, 0, 0), 'column': (0.5, 0.5, 0.5), 'floor': (0.1, 0.1, 0.1),
            'wall': (0.9, 0.9, 0.9), 'accent': (1, 0, 0),
        }
        return self.get_colour(*colours.get(category, (0, 0, 1)))
''')])
ref('vox-header', 'C16', [('magicavoxel/writer.py', '''    handle.write(struct.pack('4s', b'VOX '))
    handle.write(struct.pack('i', 150))
    handle.write(struct.pack('4s', b'MAIN'))
    handle.write(struct.pack('i', 0))  # Chunk size
    handle.write(struct.pack('i', cs + 48 + 1024))  # child chunk size TODO
    # Size chunk
    handle.write(struct.pack('4s', b'SIZE'))
    handle.write(struct.pack('i', 12))
    handle.write(struct.pack('i', 0))
    handle.write(struct.pack('i', int(min(voxel_world.xmax, 255)) + 1))  # x
    handle.write(struct.pack('i', int(min(voxel_world.ymax, 255)) + 1))  # y
    handle.write(struct.pack('i', int(min(voxel_world.zmax, 255)) + 1))  # z
''', '''    handle.write(struct.pack('<4si', b'VOX ', 150))
    handle.write(struct.pack('<4sii', b'MAIN', 0, cs + 48 + 1024))
    # Size chunk
    handle.write(struct.pack('<4sii', b'SIZE', 12, 0))
    for extent in (voxel_world.xmax, voxel_world.ymax, voxel_world.zmax):
        handle.write(struct.pack('<i', int(min(extent, 255)) + 1))
''')])
ref('vox-records', 'C16', [('magicavoxel/writer.py', '''    def m(x):
        return int(x)

    for ((x, y, z), value) in voxels:
        handle.write(struct.pack('BBBB', m(x), m(y), m(z), m(value.texture[0] + 1)))
        # handle.write(struct.pack('BBBB', m(x), m(y), m(z), 1))
''', '''    for (position, value) in voxels:
        record = [int(c) for c in position] + [int(value.texture[0]) + 1]
        handle.write(bytes(record))
'''), ('magicavoxel/writer.py', '''    def n(x):
        return int(255 * x)

    for idx, (tex_key, tex) in enumerate(texman.atlas.items()):
        handle.write(struct.pack('BBBB', n(tex.r), n(tex.g), n(tex.b), 255))  # white

    for i in range(256 - len(texman.atlas)):
        handle.write(struct.pack('BBBB', 0, 0, 0, 255))  # white''', '''    def channel(x):
        return int(255 * x)

    for tex in texman.atlas.values():
        handle.write(struct.pack('4B', channel(tex.r), channel(tex.g), channel(tex.b), 255))

    unused = 256 - len(texman.atlas)
    handle.write(b'\\x00\\x00\\x00\\xff' * unused)''')])
ref('light-split', 'C18', [('lighting/__init__.py', '''        pos = position
        if autocenter:
            pos = position + TILE_CENTER + HALF_HEIGHT

        if colour_override:
            (red, green, blue) = colour_override
        else:
            (red, green, blue) = self.hue(pos)

        light = self.get_light(pos, red, green, blue, size_factor=size_factor)
        xmap.ents.append(light)
''', '''        pos = position + TILE_CENTER + HALF_HEIGHT if autocenter else position
        colour = colour_override or self.hue(pos)
        xmap.ents.append(self.get_light(pos, *colour, size_factor=size_factor))
'''), ('lighting/__init__.py', '''        nums = [
            x * (2 ** -8.4)
            for x in pos
        ]

        # convert a tuple of three nums (x,y,z) + offset into a
        # 0-255 integer.
        def kleur(nums, base):
            return int(abs(noise.pnoise3(*nums, base=base)) * 255)

        # Now we generate our colour:
        red = kleur(nums, 10)
        grn = kleur(nums, 0)
        blu = kleur(nums, 43)
''', '''        scale = 2 ** -8.4
        nums = tuple(x * scale for x in pos)

        # Now we generate our colour:
        (red, grn, blu) = [self._kleur(nums, base) for base in (10, 0, 43)]
'''), ('lighting/__init__.py', '''        # This should give us a bright colour on a continuous range
        return (int(red), int(grn), int(blu))''', '''        # This should give us a bright colour on a continuous range
        return tuple(int(c) for c in (red, grn, blu))

    def _kleur(self, nums, base):
        """convert a tuple of three nums (x,y,z) + offset into a 0-255 integer."""
        return int(abs(noise.pnoise3(*nums, base=base)) * 255)''')])
ref('rooms-loops', 'C19', [('prefabs/__init__.py', '''        positions = [SELF]

        # Same logic as init
        for i in range(1, self.length):
            positions.append(EAST * i)

        return positions
''', '''        return [EAST * i for i in range(self.length)]
'''), ('prefabs/__init__.py', '''        self.x('rectangular_prism', world, FineVector(0, 0, 0), FineVector(1, 8, 1), tex=floor_tex)
        self.x('rectangular_prism', world, FineVector(1, 0, 1), FineVector(1, 8, 1), tex=floor_tex)
        self.x('rectangular_prism', world, FineVector(2, 0, 2), FineVector(1, 8, 1), tex=floor_tex)
        self.x('rectangular_prism', world, FineVector(3, 0, 3), FineVector(1, 8, 1), tex=floor_tex)
        self.x('rectangular_prism', world, FineVector(4, 0, 4), FineVector(1, 8, 1), tex=floor_tex)
        self.x('rectangular_prism', world, FineVector(5, 0, 5), FineVector(1, 8, 1), tex=floor_tex)
        self.x('rectangular_prism', world, FineVector(6, 0, 6), FineVector(1, 8, 1), tex=floor_tex)
        self.x('rectangular_prism', world, FineVector(7, 0, 7), FineVector(1, 8, 1), tex=floor_tex)
''', '''        for step in range(8):
            self.x('rectangular_prism', world, FineVector(step, 0, step), FineVector(1, 8, 1), tex=floor_tex)
'''), ('prefabs/__init__.py', '''        doors = [
            {'orientation': EAST, 'offset': EAST},
        ]
        if self._randflags[0]:
            doors += [
                {'orientation': WEST, 'offset': WEST},
            ]
        return doors
''', '''        facing = [EAST, WEST] if self._randflags[0] else [EAST]
        return [{'orientation': d, 'offset': d} for d in facing]
'''), ('prefabs/__init__.py', '''        positions = []
        for z in range(self._height):
            positions += [
                (ABOVE * z) + NORTHWEST,
                (ABOVE * z) + NORTH,
                (ABOVE * z) + NORTHEAST,
                (ABOVE * z) + WEST,
                (ABOVE * z) + SELF,
                (ABOVE * z) + EAST,
                (ABOVE * z) + SOUTHWEST,
                (ABOVE * z) + SOUTH,
                (ABOVE * z) + SOUTHEAST,
            ]
        return positions
''', '''        layer = (NORTHWEST, NORTH, NORTHEAST, WEST, SELF, EAST, SOUTHWEST, SOUTH, SOUTHEAST)
        return [(ABOVE * z) + tile for z in range(self._height) for tile in layer]
''')])
ref('todict', 'C20', [('objects.py', '''        d = {
            '_id': self.cube_id,
            'ext': self.ext.to_dict() if self.ext else None,
            'edges': self.edges,
            'faces': [f.name for f in self.faces],
            'texture': [t if isinstance(t, int) else t.value for t in self.texture],
            'material': self.material,
            'merged': self.merged,
            'escaped': self.escaped,
            'visible': self.visible,
            'octsav': self.octsav,
        }

        if children:
            d['children'] = [{} if x is None else x.to_dict() for x in self.children] if self.children else []

        if hasattr(self, 'surfmask'):
            d['surfmask'] = self.surfmask

        if hasattr(self, 'totalverts'):
            d['totalverts'] = self.totalverts

        return d
''', '''        def number(t):
            return t if isinstance(t, int) else t.value

        d = {'_id': self.cube_id}
        d['ext'] = None
        if self.ext:
            d['ext'] = self.ext.to_dict()
        for key in ('edges', 'material', 'merged', 'escaped', 'visible', 'octsav'):
            d[key] = getattr(self, key)
        d['texture'] = list(map(number, self.texture))
        d['faces'] = [f.name for f in self.faces]

        if children:
            d['children'] = []
            for child in self.children or ():
                d['children'].append(child.to_dict() if child is not None else {})

        for key in ('surfmask', 'totalverts'):
            if hasattr(self, key):
                d[key] = getattr(self, key)

        return d
'''), ('entities/__init__.py', '''        for (key, value) in zip(self.attr_annotations, self.attrs):
            data['attr'][key] = value

        if self.type == EntType.ET_WEAPON:
            data['attr']['type'] = WeaponType(data['attr']['type']).name

        data['attr']['_order'] = self.attr_annotations

        return data
''', '''        attr = data['attr']
        for (idx, key) in enumerate(self.attr_annotations):
            attr[key] = self.attrs[idx]

        if self.type is EntType.ET_WEAPON:
            attr.update(type=WeaponType(self.attrs[0]).name)

        attr['_order'] = list(self.attr_annotations)

        return data
'''), ('__init__.py', '''        map_vars = OrderedDict()
        for (key, value) in data['map_vars']:
            key = key.encode('utf-8', 'surrogateescape')
            if isinstance(value, str):
                value = value.encode('utf-8', 'surrogateescape')
            map_vars[key] = value
''', '''        def back(x):
            return x.encode('utf-8', 'surrogateescape') if isinstance(x, str) else x

        map_vars = OrderedDict((back(key), back(value)) for (key, value) in data['map_vars'])
''')])

# ---- second batch ----
V_ = 'voxel/__init__.py'
ref('voxel-bounds-minmax', 'C04 C03', [(V_, '''        if x > self.xmax:
            self.xmax = x
        if x < self.xmin:
            self.xmin = x
        if y > self.ymax:
            self.ymax = y
        if y < self.ymin:
            self.ymin = y
        if z > self.zmax:
            self.zmax = z
        if z < self.zmin:
            self.zmin = z
''', '''        self.xmax, self.xmin = max(self.xmax, x), min(self.xmin, x)
        self.ymax, self.ymin = max(self.ymax, y), min(self.ymin, y)
        self.zmax, self.zmin = max(self.zmax, z), min(self.zmin, z)
'''), (V_, '''        log.debug("set_point %s", xyz)
        self._update_boundaries(xyz.x, xyz.y, xyz.z)
        self.world[tuple(xyz)] = data
''', '''        self.set_point(*xyz, data)
'''), (V_, '''        log.debug("del_point (%d, %d, %d)", x, y, z)
        if (x, y, z) in self.world:
            del self.world[x, y, z]
''', '''        self.world.pop((x, y, z), None)
'''), (V_, '''        if (x, y, z) in self.world:
            return self.world[x, y, z]
        else:
            return None
''', '''        return self.world.get((x, y, z))
''')])
ref('voxel-bounds-loop', 'C04', [(V_, '''        if x > self.xmax:
            self.xmax = x
        if x < self.xmin:
            self.xmin = x
        if y > self.ymax:
            self.ymax = y
        if y < self.ymin:
            self.ymin = y
        if z > self.zmax:
            self.zmax = z
        if z < self.zmin:
            self.zmin = z
''', '''        for axis, value in zip('xyz', (x, y, z)):
            if value > getattr(self, axis + 'max'):
                setattr(self, axis + 'max', value)
            if value < getattr(self, axis + 'min'):
                setattr(self, axis + 'min', value)
'''), (V_, '''        (x, y, z) = xyz
        if (x, y, z) in self.world:
            del self.world[x, y, z]
''', '''        key = tuple(xyz)
        try:
            del self.world[key]
        except KeyError:
            pass
''')])
OCTO = open('/repo/redeclipse/voxel/__init__.py').read()
OCTO = OCTO[OCTO.index('        # Otherwise, split into 8 smaller cubes\n'):OCTO.index('        # Worldroot is an array')]
ref('octree-loops', 'C03', [(V_, OCTO, '''        # Otherwise, split into 8 smaller cubes
        x_halves = self._halves(x_bounds)
        y_halves = self._halves(y_bounds)
        z_halves = self._halves(z_bounds)
        current_level_cubes = [
            self.to_octree(xb, yb, zb)
            for zb in z_halves for yb in y_halves for xb in x_halves
        ]

'''), (V_, '''    def to_octree(self,''', '''    @staticmethod
    def _halves(bounds):
        (low, high) = bounds
        middle = (low + high) // 2
        return [(low, middle), (middle, high)]

    def to_octree(self,'''), (V_, '''        elif all([x is None for x in current_level_cubes]):
            # If they're all empty, return
            return None
        else:
            # Some of them are non-empty, replace the others with empty cubes.
            c = cube.newcube()
            c.children = [cube.newcube() if x is None else x for x in current_level_cubes]
            c.octsav = OCT.OCTSAV_CHILDREN.value
            return c''', '''        if not any(current_level_cubes):
            # If they're all empty, return
            return None
        # Some of them are non-empty, replace the others with empty cubes.
        c = cube.newcube()
        c.octsav = OCT.OCTSAV_CHILDREN.value
        c.children = [x or cube.newcube() for x in current_level_cubes]
        return c''')])
ref('octree-bits', 'C03', [(V_, OCTO, '''        xmid, ymid, zmid = sum(x_bounds) // 2, sum(y_bounds) // 2, sum(z_bounds) // 2
        current_level_cubes = []
        for octant in range(8):
            xb = (xmid, x_bounds[1]) if octant & 1 else (x_bounds[0], xmid)
            yb = (ymid, y_bounds[1]) if octant & 2 else (y_bounds[0], ymid)
            zb = (zmid, z_bounds[1]) if octant & 4 else (z_bounds[0], zmid)
            current_level_cubes.append(self.to_octree(xb, yb, zb))

''')])
VE = 'vector/__init__.py'
ref('vector-iter', 'C05 C06 C07', [(VE, '''        if self.__class__ == other.__class__:
            return self.__class__(
                self.x + other.x,
                self.y + other.y,
                self.z + other.z,
            )
        else:
            raise Exception("addition not defined for dissimilar classes")

    def __sub__''', '''        if self.__class__ != other.__class__:
            raise Exception("addition not defined for dissimilar classes")
        return self.__class__(*[a + b for (a, b) in zip(self, other)])

    def __sub__'''), (VE, '''        return self.__class__(
            self.x * m,
            self.y * m,
            self.z * m
        )
''', '''        return self.__class__(*(c * m for c in self))
'''), (VE, '''        if self.x < other.x:
            return True
        elif self.x == other.x:
            if self.y < other.y:
                return True
            elif self.y == other.y:
                if self.z < other.z:
                    return True
        return False
''', '''        return (self.x, self.y, self.z) < (other.x, other.y, other.z)
'''), (VE, '''        a = self.fine()
        b = other.fine()
        return FineVector(
            a.x + b.x,
            a.y + b.y,
            a.z + b.z,
        )

    def __sub__(self, other):
        a = self.fine()
        b = other.fine()
        return FineVector(
            a.x - b.x,
            a.y - b.y,
            a.z - b.z,
        )

    def coarse(self):
        return CoarseVector(
            self.x // 8,
            self.y // 8,
            self.z // 8
        )
''', '''        b = other.fine()
        return FineVector(self.x + b.x, self.y + b.y, self.z + b.z)

    def __sub__(self, other):
        b = other.fine()
        return FineVector(self.x - b.x, self.y - b.y, self.z - b.z)

    def coarse(self):
        return CoarseVector(*map(lambda c: c // 8, self))
'''), (VE, '''        if key == 0:
            return self.x
        elif key == 1:
            return self.y
        elif key == 2:
            return self.z
        raise Exception("Could not access %s" % key)
''', '''        if key in (0, 1, 2):
            return (self.x, self.y, self.z)[key]
        raise Exception("Could not access %s" % key)
'''), (VE, '''        newvec = self * 8
        return FineVector(
            newvec.x,
            newvec.y,
            newvec.z
        )
''', '''        return FineVector(8 * self.x, 8 * self.y, 8 * self.z)
''')])
ref('vector-eq-helper', 'C06 C05', [(VE, '''        if isinstance(other, CoarseVector):
            # If the other one is coarse, convert the other to fine so they're
            # the same.
            tmp = other.fine()
            return \\
                self.x == tmp.x and \\
                self.y == tmp.y and \\
                self.z == tmp.z

        elif isinstance(other, FineVector):
            # Otherwise just compare as-is
            return \\
                self.x == other.x and \\
                self.y == other.y and \\
                self.z == other.z

        else:
            return False
''', '''        if not isinstance(other, (CoarseVector, FineVector)):
            return False
        return tuple(self) == tuple(other.fine())
'''), (VE, '''        if isinstance(other, CoarseVector):
            # If we're both coarse, compare as-is
            return \\
                self.x == other.x and \\
                self.y == other.y and \\
                self.z == other.z
        elif isinstance(other, FineVector):
            # If the other one is fine, convert ourselves to find so we can
            # compare
            tmp = self.fine()
            return \\
                tmp.x == other.x and \\
                tmp.y == other.y and \\
                tmp.z == other.z
        else:
            return False
''', '''        if isinstance(other, FineVector):
            return self.fine() == other
        return isinstance(other, CoarseVector) and \\
            all(a == b for (a, b) in zip(self, other))
'''), (VE, '''        return (1 << 31) + (floor(self.x) << 20) + (floor(self.y) << 10) + floor(self.z)''', '''        return self._key(1)'''), (VE, '''        return (2 << 31) + (floor(self.x) << 20) + (floor(self.y) << 10) + floor(self.z)''', '''        return self._key(2)'''), (VE, '''        return (0 << 31) + (floor(self.x) << 20) + (floor(self.y) << 10) + floor(self.z)
''', '''        return self._key(0)

    def _key(self, kind):
        (x, y, z) = [floor(c) for c in self]
        return (kind << 31) + (x << 20) + (y << 10) + z
'''), (VE, '''        return self == other or self < other''', '''        return self < other or self == other''')])
ref('rotate-helper', 'C07 C09', [(VE, '''        if not isinstance(deg, int):
            y = deg.y
            x = deg.x
            theta = atan2(y, x)
        else:
            theta = pi * deg / 180
        # We''', '''        theta = pi * deg / 180 if isinstance(deg, int) else atan2(deg.y, deg.x)
        c, s = cos(theta), sin(theta)
        # We'''), (VE, '''        return self.__class__(
            round((2 * self.x * cos(theta)) - (2 * self.y * sin(theta))) / 2,
            round((2 * self.x * sin(theta)) + (2 * self.y * cos(theta))) / 2,
            self.z
        )
''', '''        x = round((2 * self.x * c) - (2 * self.y * s)) / 2
        y = round((2 * self.x * s) + (2 * self.y * c)) / 2
        return self.__class__(x, y, self.z)
'''), (VE, '''        return (self + offset).rotate(deg) - offset''', '''        moved = self + offset
        turned = moved.rotate(deg)
        return turned - offset''')])
ref('rotate-exact', 'C07', [(VE, '''        if not isinstance(deg, int):
            y = deg.y
            x = deg.x
            theta = atan2(y, x)
        else:
            theta = pi * deg / 180
''', '''        if isinstance(deg, int) and deg % 90 == 0:
            # Quarter turns need no trigonometry.
            (x, y) = (self.x, self.y)
            for _ in range(deg % 360 // 90):
                (x, y) = (-y, x)
            return self.__class__(x + 0.0, y + 0.0, self.z)
        if not isinstance(deg, int):
            y = deg.y
            x = deg.x
            theta = atan2(y, x)
        else:
            theta = pi * deg / 180
''')])
CK = 'prefabs/construction_kit.py'
ref('kit-ranges', 'C08 C09 C10', [(CK, '''    if x > 0:
        x_lower_bound = 0
        x_upper_bound = x
    else:
        x_lower_bound = x + 1
        x_upper_bound = 1

    if y > 0:
        y_lower_bound = 0
        y_upper_bound = y
    else:
        y_lower_bound = y + 1
        y_upper_bound = 1

    if z > 0:
        z_lower_bound = 0
        z_upper_bound = z
    else:
        z_lower_bound = z + 1
        z_upper_bound = 1

    for i in range(x_lower_bound, x_upper_bound):
        for j in range(y_lower_bound, y_upper_bound):
            for k in range(z_lower_bound, z_upper_bound):
                yield FineVector(i, j, k)
''', '''    for i in _extent(x):
        for j in _extent(y):
            for k in _extent(z):
                yield FineVector(i, j, k)


def _extent(n):
    return range(n) if n > 0 else range(n + 1, 1)
'''), (CK, '''    if subtract:
        return True
    else:
        if prob < 1:
            if random.random() > prob:
                return True
    return False
''', '''    return subtract or (prob < 1 and random.random() > prob)
'''), (CK, '''        tex = 2
        subtract = kwargs.get('subtract', False)
        prob = kwargs.get('prob', 1.1)
        if 'tex' in kwargs:
            tex = kwargs['tex']
            del kwargs['tex']

        if 'subtract' in kwargs:
            del kwargs['subtract']

        if 'prob' in kwargs:
            del kwargs['prob']

        for point in func(*args, **kwargs):
            if subtract_or_skip(subtract, prob):
                world.del_pointv(point)
                continue
            world.set_pointv(point, cube.newtexcube(tex=tex))
''', '''        tex = kwargs.pop('tex', 2)
        subtract = kwargs.pop('subtract', False)
        prob = kwargs.pop('prob', 1.1)

        for point in func(*args, **kwargs):
            if subtract_or_skip(subtract, prob):
                world.del_pointv(point)
            else:
                world.set_pointv(point, cube.newtexcube(tex=tex))
'''), (CK, '''        yield self.pos + offset.offset_rotate(self.orientation, offset=TILE_VOX_OFF)

''', '''        yield self._local(offset)

    def _local(self, offset):
        return self.pos + offset.offset_rotate(self.orientation, offset=TILE_VOX_OFF)

'''), (CK, '''        local_position = self.pos + offset.offset_rotate(self.orientation, offset=TILE_VOX_OFF)

        for point in cube_points(xyz.x, xyz.y, xyz.z):
            yield point + local_position''', '''        local_position = self._local(offset)

        yield from (point + local_position for point in cube_points(*xyz))'''), (CK, '''        for idx, point in enumerate(column_points(length, direction.rotate(self.orientation))):
            if onoff[idx % len(onoff)]:
                yield point + local_position
''', '''        for idx, point in enumerate(column_points(length, direction.rotate(self.orientation))):
            if not onoff[idx % len(onoff)]:
                continue
            yield local_position + point
''')])
ref('kit-wall', 'C08 C09', [(CK, '''    if size > 0:
        i_lower_bound = 0
        i_upper_bound = size
        j_lower_bound = 0
        j_upper_bound = size
    else:
        i_lower_bound = size
        i_upper_bound = 0
        j_lower_bound = size
        j_upper_bound = 0

    for i in range(i_lower_bound, i_upper_bound):
        # Allow partial_j walls
        if i > limit_i:
            continue

        for j in range(j_lower_bound, j_upper_bound):
            # Allow partial_j walls
            if j > limit_j:
                continue

            if direction''', '''    low, high = min(size, 0), max(size, 0)

    for i in range(low, min(high, limit_i + 1)):
        # Allow partial_j walls
        for j in range(low, min(high, limit_j + 1)):
            if direction'''), (CK, '''        if face == EAST:
            yield from self.x_rectangular_prism(offset + FineVector(7, 0, 0), FineVector(1, 8, limit_j))
        elif face == WEST:
            yield from self.x_rectangular_prism(offset + FineVector(0, 0, 0), FineVector(1, 8, limit_j))
        elif face == NORTH:
            yield from self.x_rectangular_prism(offset + FineVector(0, 7, 0), FineVector(8, 1, limit_j))
        elif face == SOUTH:
            yield from self.x_rectangular_prism(offset + FineVector(0, 0, 0), FineVector(8, 1, limit_j))
''', '''        if face in (EAST, WEST):
            shift = FineVector(7 if face == EAST else 0, 0, 0)
            extent = FineVector(1, 8, limit_j)
        elif face in (NORTH, SOUTH):
            shift = FineVector(0, 7 if face == NORTH else 0, 0)
            extent = FineVector(8, 1, limit_j)
        else:
            return
        yield from self.x_rectangular_prism(offset + shift, extent)
'''), (CK, '''        yield from self.x_rectangular_prism(offset, FineVector(1, size - 1, 1))
        yield from self.x_rectangular_prism(offset, FineVector(size - 1, 1, 1))
        yield from self.x_rectangular_prism(offset + FineVector(0, size - 1, 0), FineVector(size, 1, 1))
        yield from self.x_rectangular_prism(offset + FineVector(size - 1, 0, 0), FineVector(1, size, 1))
''', '''        far = size - 1
        sides = [
            (FineVector(0, 0, 0), FineVector(1, far, 1)),
            (FineVector(0, 0, 0), FineVector(far, 1, 1)),
            (FineVector(0, far, 0), FineVector(size, 1, 1)),
            (FineVector(far, 0, 0), FineVector(1, size, 1)),
        ]
        for (shift, extent) in sides:
            yield from self.x_rectangular_prism(offset + shift, extent)
'''), (CK, '''    direction = direction.fine() / 8
    for i in range(size):
        yield direction * i
''', '''    step = direction.fine() / 8
    yield from (step * i for i in range(size))
''')])
UP = 'upm.py'
ref('upm-mirror-helper', 'C11 C12 C13', [(UP, '''        for orientation in self.mirror_rotations:
            room_copy = copy.deepcopy(room)
            # Offset rotate around the center of the map
            room_copy.pos = room_copy.pos.offset_rotate(orientation, offset=CoarseVector(-16, -16, 0))
            room_copy.orientation = room_copy.orientation.rotate(orientation)
            yield room_copy

    def _yield_mirrored_positions(self, room):
        for orientation in self.mirror_rotations:
            yield (
                room.pos.offset_rotate(orientation, offset=CoarseVector(-16, -16, 0)),
                room.orientation.rotate(orientation)
            )
''', '''        for (pos, orientation) in self._yield_mirrored_positions(room):
            room_copy = copy.deepcopy(room)
            room_copy.pos = pos
            room_copy.orientation = orientation
            yield room_copy

    def _yield_mirrored_positions(self, room):
        # Offset rotate around the center of the map
        center = CoarseVector(-16, -16, 0)
        for angle in self.mirror_rotations:
            yield (room.pos.offset_rotate(angle, offset=center), room.orientation.rotate(angle))
'''), (UP, '''        if self.mirror == 1:
            self.mirror_rotations = [0]
        elif self.mirror == 2:
            self.mirror_rotations = [0, 180]
        elif self.mirror == 4:
            self.mirror_rotations = [0, 90, 180, 270]
''', '''        if self.mirror in (1, 2, 4):
            self.mirror_rotations = list(range(0, 360, 360 // self.mirror))
'''), (UP, '''        return 0 <= position.x < 32 and \\
            0 <= position.y < 32 and \\
            0 <= position.z < 32
''', '''        return all(0 <= c < 32 for c in position)
''')])
ref('upm-prereg', 'C11 C13', [(UP, '''            used = room.get_positions()
            # First, we need to check that ALL of those positions are
            # unoccupied, and that the room stays within the map.
            for position in used:
                if not self.is_legal(position):
                    return False
                if position in self.occupied.keys() or position in added_occupied:
                    return False
            added_occupied = added_occupied.union(set(used))
            # Don't add the room if the door is off the edge.
            for door in room.get_doorways():
                if not self.is_legal(door['offset']):
                    return False
        return True
''', '''            used = set(room.get_positions())
            # First, we need to check that ALL of those positions are
            # unoccupied, and that the room stays within the map.
            if not all(map(self.is_legal, used)):
                return False
            if any(position in self.occupied or position in added_occupied for position in used):
                return False
            added_occupied |= used
            # Don't add the room if the door is off the edge.
            if not all(self.is_legal(door['offset']) for door in room.get_doorways()):
                return False
        return True
'''), (UP, '''        for ((pos_a, ori_a), (pos_b, ori_b)) in zip(
            self._yield_mirrored_positions(room_a),
            self._yield_mirrored_positions(room_b)
        ):
            self.links.append((pos_a, pos_b))
''', '''        from_positions = [pos for (pos, _) in self._yield_mirrored_positions(room_a)]
        to_positions = [pos for (pos, _) in self._yield_mirrored_positions(room_b)]
        self.links.extend(zip(from_positions, to_positions))
''')])
ref('upm-choice', 'C14 C22', [(UP, '''        total = sum(w for c, w in choices)
        r = random.uniform(0, total)
        upto = 0
        for c, w in choices:
            if upto + w >= r:
                return c
            upto += w
        # Rounding: the running sum may stay (slightly) below the drawn value.
        possible = [c for c, w in choices if w > 0]
        return possible[-1] if possible else None
''', '''        r = random.uniform(0, sum(weight for (_, weight) in choices))
        upto = 0
        last = None
        for (choice, weight) in choices:
            upto += weight
            if upto >= r:
                return choice
            # Rounding: the running sum may stay (slightly) below the drawn value.
            if weight > 0:
                last = choice
        return last
'''), (UP, '''        choices = []
        probs = connecting_room.get_transition_probs()
        for room in room_options:
            # Append to our possibilities
            choices.append((
                # The room, and the probability of getting that type of room
                # based on the current room type
                room, probs.get(room.room_type, 0.1)
            ))
        return self.weighted_choice(choices)
''', '''        probs = connecting_room.get_transition_probs()
        # The room, and the probability of getting that type of room
        # based on the current room type
        return self.weighted_choice([(room, probs.get(room.room_type, 0.1)) for room in room_options])
''')])
ref('upm-stream', 'C14 C13', [(UP, '''        choices = []
        probs = connecting_room.get_transition_probs()

        # We'll need integer probabilities for the shuffling, so use min and mult everything.
        minimum_prob = min([probs.get(room.room_type, 0.1) for room in room_options])

        for room in room_options:
            # Number of times we'd like to see this room.
            frequency = int(probs.get(room.room_type, 0.1) / minimum_prob)
            # Append that many rooms
            for n in range(frequency):
                choices.append(room)
''', '''        known = connecting_room.get_transition_probs()
        probs = [(room, known.get(room.room_type, 0.1)) for room in room_options]

        # We'll need integer probabilities for the shuffling, so use min and mult everything.
        minimum_prob = min(p for (_, p) in probs)

        choices = []
        for (room, p) in probs:
            # Number of times we'd like to see this room.
            choices.extend([room] * int(p / minimum_prob))
'''), (UP, '''        choices = OrderedDict([(room, True) for room in random.sample(choices, len(choices))]).keys()
        return choices
''', '''        return list(OrderedDict.fromkeys(random.sample(choices, len(choices))))
''')])
ref('upm-stream-dict', 'C14 C13', [(UP, '''        choices = OrderedDict([(room, True) for room in random.sample(choices, len(choices))]).keys()
        return choices
''', '''        shuffled = random.sample(choices, len(choices))
        seen = set()
        result = []
        for room in shuffled:
            if room not in seen:
                seen.add(room)
                result.append(room)
        return result
''')])
AE = 'aftereffects.py'
LOOP3 = '''        for x in range(world.size):
            for y in range(world.size):
'''
ref('effects-helper', 'C17', [(AE, '''    for z in tqdm(range(world.zmax)):
        for x in range(world.size):
            for y in range(world.size):
                if pos_func(x, y, z):
                    if not world.get_point(x, y, z):
                        world.set_point(
                            x, y, z,
                            cube.newtexcube(tex=2)
                        )
''', '''    for (x, y, z) in _everywhere(world):
        if pos_func(x, y, z):
            _fill(world, x, y, z)


def _everywhere(world):
    for z in tqdm(range(world.zmax)):
        for x in range(world.size):
            for y in range(world.size):
                yield (x, y, z)


def _fill(world, x, y, z):
    """Add a voxel unless there is one."""
    if world.get_point(x, y, z):
        return
    world.set_point(x, y, z, cube.newtexcube(tex=2))
'''), (AE, '''    for z in tqdm(range(world.zmax)):
        for x in range(world.size):
            for y in range(world.size):
                if random.random() > position_function(x, y, z):
                    # sys.stdout.write('.')
                    world.del_point(x, y, z)
                # else:
                    # pass
                    # sys.stdout.write('|')
''', '''    for (x, y, z) in _everywhere(world):
        if random.random() > position_function(x, y, z):
            world.del_point(x, y, z)
'''), (AE, '''    for z in tqdm(range(world.zmax)):
        for x in range(world.size):
            for y in range(world.size):
                if random.random() > position_function(x, y, z):
                    if not world.get_point(x, y, z):
                        world.set_point(
                            x, y, z,
                            cube.newtexcube(tex=2)
                        )
''', '''    for (x, y, z) in _everywhere(world):
        if random.random() > position_function(x, y, z):
            _fill(world, x, y, z)
'''), (AE, '''                if x == 0 or y == 0 or z == 0 or x == world.size - 1 or y == world.size - 1 or z == world.size - 1:
''', '''                if 0 in (x, y, z) or world.size - 1 in (x, y, z):
'''), (AE, '''                xa = x == 0
                ya = y == 0
                za = z == 0
                xb = x == world.size - 1
                yb = y == world.size - 1
                zb = z == world.size - 1

                # Fun property of booleans, they can be interpreted as ints, 0/1
                if sum([xa, ya, za, xb, yb, zb]) > 1:
''', '''                # Fun property of booleans, they can be interpreted as ints, 0/1
                last = world.size - 1
                if sum(c == 0 for c in (x, y, z)) + sum(c == last for c in (x, y, z)) > 1:
'''), (AE, '''    if result < 0:
        result = 0
    if result > 1:
        result = 1
    return result
''', '''    return min(max(result, 0), 1)
''')])
ref('effects-product', 'C17', [(AE, '''    max_height = world.size
    if height:
        max_height = height
    for z in tqdm(range(max_height)):
        for x in range(world.size):
            for y in range(world.size):
                if x == 0 or y == 0 or z == 0 or x == world.size - 1 or y == world.size - 1 or z == world.size - 1:
                    world.set_point(
                        x, y, z,
                        cube.newtexcube(tex=2)
                    )
''', '''    edges = (0, world.size - 1)
    for z in tqdm(range(height or world.size)):
        for (x, y) in itertools.product(range(world.size), repeat=2):
            if x in edges or y in edges or z in edges:
                world.set_point(x, y, z, cube.newtexcube(tex=2))
'''), (AE, '''import random
from tqdm''', '''import itertools
import random
from tqdm'''), (AE, '''    for (pos, typ, ori) in tqdm(upm.unoccupied):
        # Sure wish we could do larger rooms.
        for offset in cube_points(8, 8, 8):
            world.set_pointv(
                pos + offset,
                cube.newtexcube(tex=2)
            )
''', '''    for entry in tqdm(upm.unoccupied):
        position = entry[0].fine()
        # Sure wish we could do larger rooms.
        for offset in cube_points(8, 8, 8):
            world.set_pointv(offset + position, cube.newtexcube(tex=2))
''')])
EN = 'entities/__init__.py'
ref('entities-table', 'C18 C20', [(EN, '''        xyz = xyz.fine() * 4
        self.o = ivec3(*xyz)
        self.type = EntType.ET_LIGHT
        self.attr_annotations = [
            'radius', 'red', 'green', 'blue', 'flare', 'flarescale',
        ]
        self.attrs = [
            radius, red, green, blue, flare, flarescale
        ]
        self.links = [] if links is None else links
        self.reserved = [0, 0, 0] if reserved is None else reserved
''', '''        super().__init__(
            xyz, EntType.ET_LIGHT,
            [radius, red, green, blue, flare, flarescale],
            links, reserved
        )
'''), (EN, '''        self.o = ivec3(*(xyz.fine() * 4))
        self.type = EntType.ET_PLAYERSTART
        self.attr_annotations = [
            'team', 'yaw', 'pitch', 'modes', 'muts', 'id'
        ]
        self.attrs = [
            team, yaw, pitch, modes, muts, id
        ]
        self.links = [] if links is None else links
        self.reserved = [0, 0, 0] if reserved is None else reserved
''', '''        values = dict(team=team, yaw=yaw, pitch=pitch, modes=modes, muts=muts, id=id)
        self.o = ivec3(*xyz.entity())
        self.type = EntType.ET_PLAYERSTART
        self.attr_annotations = list(values)
        self.attrs = list(values.values())
        self.links = links if links is not None else []
        self.reserved = reserved if reserved is not None else [0, 0, 0]
'''), (EN, '''        data = {
            'position': [self.o.x, self.o.y, self.o.z],
            'type': self.type.name,
            'attr': {},
            'links': self.links,
            'reserved': self.reserved,
        }

        for (key, value) in zip(self.attr_annotations, self.attrs):
            data['attr'][key] = value

        if self.type == EntType.ET_WEAPON:
            data['attr']['type'] = WeaponType(data['attr']['type']).name

        data['attr']['_order'] = self.attr_annotations

        return data
''', '''        attr = dict(zip(self.attr_annotations, self.attrs))
        if self.type == EntType.ET_WEAPON:
            attr['type'] = WeaponType(attr['type']).name
        attr['_order'] = self.attr_annotations

        return {
            'position': [self.o.x, self.o.y, self.o.z],
            'type': self.type.name,
            'attr': attr,
            'links': self.links,
            'reserved': self.reserved,
        }
''')])
MR = 'magicavoxel/reader.py'
ref('vox-reader', 'C16', [(MR, '''            self.voxels = [None] * (self.num_voxels)
            for i in range(self.num_voxels):
                self.voxels[i] = self._root.Voxels(self._io, self, self._root)
''', '''            self.voxels = [
                self._root.Voxels(self._io, self, self._root)
                for _ in range(self.num_voxels)
            ]
'''), (MR, '''            self.colours = [None] * (size)
            for i in range(size):
                self.colours[i] = self._root.Colour(self._io, self, self._root)
''', '''            self.colours = []
            for _ in range(size):
                self.colours.append(self._root.Colour(self._io, self, self._root))
'''), (MR, '''        self.chunk_contents = [None] * (self.chunk_size)
        for i in range(self.chunk_size):
            self.chunk_contents[i] = self._io.read_u1()
''', '''        self.chunk_contents = [self._io.read_u1() for _ in range(self.chunk_size)]
''')])
MW = 'magicavoxel/writer.py'
ref('vox-writer-fields', 'C16', [(MW, '''    handle.write(struct.pack('i', int(min(voxel_world.xmax, 255)) + 1))  # x
    handle.write(struct.pack('i', int(min(voxel_world.ymax, 255)) + 1))  # y
    handle.write(struct.pack('i', int(min(voxel_world.zmax, 255)) + 1))  # z
''', '''    for extreme in (voxel_world.xmax, voxel_world.ymax, voxel_world.zmax):
        handle.write(struct.pack('i', int(min(extreme, 255)) + 1))
'''), (MW, '''    voxels = [
        ((x, y, z), value) for ((x, y, z), value) in voxel_world.world.items()
        if 0 <= x <= 255 and 0 <= y <= 255 and 0 <= z <= 255
    ]
''', '''    def fits(position):
        return all(0 <= c <= 255 for c in position)

    voxels = [entry for entry in voxel_world.world.items() if fits(entry[0])]
'''), (MW, '''        handle.write(struct.pack('BBBB', m(x), m(y), m(z), m(value.texture[0] + 1)))
        # handle.write(struct.pack('BBBB', m(x), m(y), m(z), 1))
''', '''        record = (m(x), m(y), m(z), m(value.texture[0] + 1))
        handle.write(struct.pack('4B', *record))
''')])
PR = 'prefabs/__init__.py'
ref('room-base', 'C19 C13', [(PR, '''        return [
            {
                'orientation': q['orientation'].rotate(self.orientation),
                'offset': self.pos + q['offset'].rotate(self.orientation)
            }
            for q in self._get_doorways()
        ]
''', '''        doors = []
        for door in self._get_doorways():
            facing = door['orientation'].rotate(self.orientation)
            doors.append(dict(orientation=facing, offset=self._place(door['offset'])))
        return doors

    def _place(self, tile):
        """Turn a tile relative to this room into a tile of the map"""
        return self.pos + tile.rotate(self.orientation)
'''), (PR, '''        return [
            self.pos + p.rotate(self.orientation) for p in self._get_positions()
        ]
''', '''        return list(map(self._place, self._get_positions()))
'''), (PR, '''            opts = []
            for i in range(number_of_options):
                opts.append(random.uniform(0, 1) > 0.5)

            return {'randflags': opts}
''', '''            return {'randflags': [random.uniform(0, 1) > 0.5 for _ in range(number_of_options)]}
'''), (PR, '''            mutatedOpts = list(copy.deepcopy(prev._randflags))
            mutateIdx = random.randint(0, len(mutatedOpts) - 1)
            # Toggle that value.
            mutatedOpts[mutateIdx] = not mutatedOpts[mutateIdx]
            return {'randflags': mutatedOpts}
''', '''            flags = prev._randflags
            toggled = random.randint(0, len(flags) - 1)
            return {'randflags': [not flag if i == toggled else flag for (i, flag) in enumerate(flags)]}
'''), (PR, '''        for i in range(self.length):
            # Add a floor south of us.
            self.x('floor', world, EAST * i, tex=floor_tex)
            self.x('low_wall', world, EAST * i, SOUTH, tex=wall_tex)
            self.x('low_wall', world, EAST * i, NORTH, tex=wall_tex)
''', '''        for tile in self._get_positions():
            # Add a floor south of us.
            self.x('floor', world, tile, tex=floor_tex)
            for side in (SOUTH, NORTH):
                self.x('low_wall', world, tile, side, tex=wall_tex)
''')])
MG = 'prefabs/magica.py'
ref('magica-load', 'C19', [(MG, '''        for vox in self.model.model_voxels.voxels:
            self.vox.set_point(vox.x, vox.y, vox.z, vox.c)
            # For every colour in the palette, register it with the current
            # class's colour atlas (non-global colour atlas).
            for idx, colour in enumerate(self.model.palette.colours):
                self._colours[idx] = (colour.r / 255, colour.g / 255, colour.b / 255)

        self.__doors = []
        for door in self.doors:
            self.__doors.append(door)
''', '''        # Register every colour of the palette with the current
        # class's colour atlas (non-global colour atlas).
        for idx, colour in enumerate(self.model.palette.colours):
            self._colours[idx] = (colour.r / 255, colour.g / 255, colour.b / 255)
        for vox in self.model.model_voxels.voxels:
            self.vox.set_point(vox.x, vox.y, vox.z, vox.c)

        self.__doors = list(self.doors)
'''), (MG, '''        for (vox, value) in self.vox.world.items():
            # We offset it and convert it to a coarse version ( // 8)
            tmp = (FineVector(*vox) + offset).coarse()
            # And ensure that our list is unique
            if tmp not in self.__positions:
                self.__positions.append(tmp)
''', '''        tiles = [(FineVector(*vox) + offset).coarse() for vox in self.vox.world]
        for tile in tiles:
            # And ensure that our list is unique
            if tile not in self.__positions:
                self.__positions.append(tile)
''')])
TX = 'textures/__init__.py'
ref('tex-register', 'C15', [(TX, '''        if name not in self.atlas_backref:
            # Insert tex
            tex = self.texref[name]
            pos = len(self.atlas)
            self.atlas[pos] = tex
            # Now insert backref
            self.atlas_backref[name] = pos
        return self.atlas_backref[name]

    def random(self):''', '''        if name not in self.atlas_backref:
            self._register(name, self.texref[name])
        return self.atlas_backref[name]

    def _register(self, name, tex):
        number = len(self.atlas)
        self.atlas[number] = tex
        self.atlas_backref[name] = number

    def random(self):'''), (TX, '''            tmp = SimpleColourTex()
            tmp.r = r
            tmp.g = g
            tmp.b = b
            self.texref[name] = tmp
            # Insert tex
            tex = self.texref[name]
            pos = len(self.atlas)
            self.atlas[pos] = tex
            # Now insert backref
            self.atlas_backref[name] = pos
        return self.atlas_backref[name]
''', '''            tex = SimpleColourTex()
            (tex.r, tex.g, tex.b) = (r, g, b)
            self.texref[name] = tex
            self._register(name, tex)
        return self.atlas_backref[name]
'''), (TX, '''        if category == 'generic':
            return self.get_colour(0, 0, 0)
        elif category == 'column':
            return self.get_colour(0.5, 0.5, 0.5)
        elif category == 'floor':
            return self.get_colour(0.1, 0.1, 0.1)
        elif category == 'wall':
            return self.get_colour(0.9, 0.9, 0.9)
        elif category == 'accent':
            return self.get_colour(1, 0, 0)

        return self.get_colour(0, 0, 1)
''', '''        colours = {
            'generic': (0, 0, 0),
            'column': (0.5, 0.5, 0.5),
            'floor': (0.1, 0.1, 0.1),
            'wall': (0.9, 0.9, 0.9),
            'accent': (1, 0, 0),
        }
        return self.get_colour(*colours.get(category, (0, 0, 1)))
'''), (TX, '''        with open(filename, 'w') as handle:
            handle.write(comment.format(author=author, map_name=map_name))
            for idx, (tex_key, tex) in enumerate(self.atlas.items()):
                handle.write(tex.conf(idx=idx))
''', '''        header = comment.format(author=author, map_name=map_name)
        with open(filename, 'w') as handle:
            handle.write(header)
            for idx, tex in enumerate(self.atlas.values()):
                text = tex.conf(idx=idx)
                handle.write(text)
''')])
UPM_ = open('/repo/redeclipse/upm.py').read()
def whole(f, t, *renames):
    n = t
    for a, b in renames: n = n.replace(a, b)
    return (f, t, n)
ref('rename-private-upm', 'C11 C12 C13 C22', [whole('upm.py', UPM_, ('_register_room', '_enter_room'), ('_room_cap_real', '_find_cap'), ('_preenter_room', '_fits'), ('_yield_mirrored_positions', '_mirrored_places'), ('_yield_mirrored', '_mirrored_rooms'))])
INIT_ = open('/repo/redeclipse/__init__.py').read()
ref('rename-private-map', 'C01 C02', [whole('__init__.py', INIT_, ('_savechildren', '_write_children'), ('_savec', '_write_cube'), ('_loadchildren', '_read_children'), ('_loadc', '_read_cube'), ('_loadvslots', '_read_slots'), ('_write_int_as_chr', '_write_byte'))])
ref('endcap-args', 'C13', [('upm.py', '''    def _room_cap_real(self, prev_room_door, prev_room, prev_room_orientation, possible_endcaps=None):''', '''    def _room_cap_real(self, entry, possible_endcaps):
        (prev_room_door, prev_room, prev_room_orientation) = entry'''), ('upm.py', '''            for (pos, typ, ori) in tqdm(self.unoccupied):
                r = self._room_cap_real(pos, typ, ori, possible_endcaps=possible_endcaps)
''', '''            for entry in tqdm(self.unoccupied):
                r = self._room_cap_real(entry, possible_endcaps)
''')])

PI = 'prefabs/__init__.py'
ref('randopts-comp', 'C14 C13', [(PI, '''            mutatedOpts = list(copy.deepcopy(prev._randflags))
            mutateIdx = random.randint(0, len(mutatedOpts) - 1)
            # Toggle that value.
            mutatedOpts[mutateIdx] = not mutatedOpts[mutateIdx]
            return {'randflags': mutatedOpts}
        else:
            # From this, now generate a random set of T/F variables
            opts = []
            for i in range(number_of_options):
                opts.append(random.uniform(0, 1) > 0.5)

            return {'randflags': opts}
''', '''            flip = random.randint(0, len(prev._randflags) - 1)
            opts = [not f if k == flip else f for k, f in enumerate(prev._randflags)]
        else:
            # From this, now generate a random set of T/F variables
            opts = [random.uniform(0, 1) > 0.5 for _ in range(number_of_options)]
        return dict(randflags=opts)
'''), (PI, '''        if not self._tp:
            self._tp = DISTMAN.for_class(self)
        return self._tp
''', '''        if self._tp is None:
            self._tp = DISTMAN.for_class(self)
        return self._tp
'''), ('prefabs/distributions.py', '''        filtered = {
            v: self.transition_probabilities[k, v] for (k, v)
            in self.transition_probabilities.keys()
            if k == clsname.room_type
        }
        return filtered
''', '''        wanted = {}
        for (k, v), probability in self.transition_probabilities.items():
            if k != clsname.room_type:
                continue
            wanted[v] = probability
        return wanted
''')])
ref('tex-copy', 'C15', [('textures/__init__.py', '''        for idx, (tex_key, tex) in enumerate(self.atlas.items()):
            if not hasattr(tex, 'files'):
                continue

            for texfile in tex.files():
                shutil.copy(
                    os.path.join(os.path.dirname(os.path.realpath(__file__)), tex.srcpath, texfile),
                    os.path.join(outdir, texfile)
                )
''', '''        here = os.path.dirname(os.path.realpath(__file__))
        for tex in self.atlas.values():
            srcdir = os.path.join(here, tex.srcpath) if hasattr(tex, 'srcpath') else here
            for texfile in getattr(tex, 'files', list)():
                self._copy_file(srcdir, outdir, texfile)

    def _copy_file(self, src, dst, name):
        source = os.path.join(src, name)
        target = os.path.join(dst, name)
        shutil.copyfile(source, target)
'''), ('textures/basetex.py', '''    def files(self):
        yield self.c
        yield self.n
        yield self.s
        yield self.z
        yield self.g''', '''    def files(self):
        return [getattr(self, k) for k in 'cnszg']''')])
ref('rooms-draw', 'C19', [(PI, '''        self.x('rectangular_prism', world, FineVector(-4, 2, 1), FineVector(3, 4, 7), subtract=True)
        self.x('rectangular_prism', world, FineVector(2, -4, 1), FineVector(4, 3, 7), subtract=True)
        self.x('rectangular_prism', world, FineVector(9, 2, 1), FineVector(3, 4, 7), subtract=True)
        self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, 7), subtract=True)
''', '''        for corner, extent in (
                (FineVector(-4, 2, 1), FineVector(3, 4, 7)),
                (FineVector(2, -4, 1), FineVector(4, 3, 7)),
                (FineVector(9, 2, 1), FineVector(3, 4, 7)),
                (FineVector(2, 9, 1), FineVector(4, 3, 7))):
            self.x('rectangular_prism', world, corner, extent, subtract=True)
'''), (PI, '''        # Sometimes we add a 'back' to it
        if not self._randflags[0]:
            self.x('wall', world, SELF, face=WEST, tex=accent_tex)

        # Always add at least two walls for cover
        self.x('wall', world, SELF, face=NORTH, tex=wall_tex)
        self.x('wall', world, SELF, face=SOUTH, tex=wall_tex)
''', '''        # Always add at least two walls for cover, sometimes we add a 'back' to it
        two_sides_open = self._randflags[0]
        for face, tex in ((NORTH, wall_tex), (SOUTH, wall_tex), (WEST, accent_tex)):
            if face == WEST and two_sides_open:
                continue
            self.x('wall', world, SELF, face=face, tex=tex)
''')])
ref('prereg-helper', 'C11 C13', [('upm.py', '''            added_occupied = added_occupied.union(set(used))
            # Don't add the room if the door is off the edge.
            for door in room.get_doorways():
                if not self.is_legal(door['offset']):
                    return False
        return True
''', '''            added_occupied.update(used)
            # Don't add the room if the door is off the edge.
            if not self._doors_inside(room):
                return False
        return True

    def _doors_inside(self, room):
        return all(self.is_legal(door['offset']) for door in room.get_doorways())
''')])
