#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays in step)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, id
    P.append(d)
R='redeclipse/'
prop('C01','A saved map reads back as the same map',
 "Writing any map the writer accepts and reading the file back gives an equal map: magic, version, header size, every header field in order, every map variable with its name, type and value, the texture MRU list, every entity (position, type, attributes, links, reserved bytes), the texture-slot change list, and every cube of the octree down to its marker byte, edges, textures, material, merge byte and surfaces. Saving raises no error for any such value that fits the width of its field in the file. The empty and the textured cubes the package itself makes are such cubes: with any texture numbers they can be saved, and read back with those textures.",
 ['inputs'],"all maps whose parts lie in the writable domain (32-bit header fields and attributes, byte-sized cube fields 0..255, relative texture slots, octrees of any depth and shape that the world size has room for, with no leaf larger than 4096 units and surfaces without vertices (the reader refuses others))",
 "The tests never save or load a map; a round trip of the few sample maps would fix one value per field and one tree shape.",
 [R+'__init__.py',R+'entities/__init__.py',R+'objects.py',R+'enums.py'],
 [('Map.write and its _write_* helpers',R+'__init__.py'),('MapParser.read and its _read_*/_load* helpers',R+'__init__.py'),('Entity.serialize / Entity.__init__',R+'entities/__init__.py'),('cube, SurfaceInfo',R+'objects.py')],['the bytes of the .mpz file','the parsed Map object'])
prop('C02','Saved files have the documented MAPZ layout and truthful counts',
 "The file a map is saved to is, after decompression, exactly the documented sequence: four magic bytes, version, header size, the header fields as 32-bit little-endian integers with the game identifier as a NUL-terminated string, then the map variables, the texture MRU list, the entities (16-byte record, attributes, links), the slot changes and the cube tree. The entity count and the variable count stored in the header are the numbers of entities and variables that follow, whatever was added to or removed from the map before saving, and attaching a skybox adds a map variable and leaves the header layout alone.",
 ['inputs','histories'],"all maps in the writable domain, after any sequence of entity additions/removals, variable edits and skybox attachment",
 "No test inspects bytes; counts are only wrong for maps modified after loading, and a writer and reader changed together would still round-trip.",
 [R+'__init__.py',R+'entities/__init__.py'],
 [('Map.write header and counters',R+'__init__.py'),('Map.skybox',R+'__init__.py'),('_savec marker/field order',R+'__init__.py')],['the bytes of the .mpz file'])
prop('C03','The octree holds exactly the voxels of the voxel world',
 "Converting a voxel world of power-of-two size to an octree gives eight top-level cubes such that descending by x, y, z halves (child index = x bit + 2*y bit + 4*z bit) from the root reaches, for every integer position inside the world, the very cube stored at that position, or an empty cube if the position is vacant. Every inner cube has exactly eight children, carries the 'has children' marker and covers at least one stored voxel; every vacant region is an empty leaf; the voxel world is not modified.",
 ['inputs'],"all power-of-two world sizes >= 2 and all sets of stored voxels inside the world",
 "One test, a 4-cube world with two voxels, looks at 2 of 64 positions.",
 [R+'voxel/__init__.py',R+'objects.py'],[('VoxelWorld.to_octree recursion',R+'voxel/__init__.py'),('cube.newcube',R+'objects.py')],['return value of to_octree'])
prop('C04','A voxel world behaves as a map from positions to voxels',
 "After any sequence of set and delete operations (by coordinates or by vector) a lookup returns the value last set at that position, or nothing if it was never set or was deleted since; an operation on one position never changes another, and a position given as numerically equal integers or floats, or as a fine vector, is the same position. The recorded minimum and maximum of each axis bound every position ever set, and are positions that were set (or the initial extremes).",
 ['inputs','histories'],"all worlds, all positions, all operation sequences (by induction over single operations)",
 "Tests use fixed positions and never check the frame, deletions of absent points, or the recorded bounds.",
 [R+'voxel/__init__.py'],[('set_point/set_pointv/del_point/del_pointv/get_point/_update_boundaries',R+'voxel/__init__.py')])
prop('C05','Vector arithmetic is exact and tile conversion finds the containing tile',
 "Adding, subtracting, scaling and dividing vectors acts component by component and returns a vector of the documented kind (coarse with coarse stays coarse; any mix of fine and coarse is fine, coarse units counting as 8 fine units), and addition is commutative, associative and undone by subtraction. Converting coarse to fine multiplies by 8; converting fine to coarse gives the one tile whose 8x8x8 block contains the point, also for negative and half-voxel coordinates; entity coordinates are four times the fine ones; operands are never modified.",
 ['inputs'],"all integer and binary-fraction coordinates in the engine's range (|c| <= 2^20)",
 "Tests sample a few vectors; hypothesis tests draw small samples of two operations.",
 [R+'vector/__init__.py'],[('__add__/__sub__/__mul__/__truediv__/__floordiv__/fine/coarse/entity/vox',R+'vector/__init__.py')])
prop('C06','Vector equality is an equivalence that hashing and ordering respect',
 "Equality of vectors compares the positions they denote (coarse and fine vectors are equal exactly when the coarse one's fine conversion matches) and is reflexive, symmetric and transitive; equal vectors of one kind have equal hashes. The ordering is lexicographic, and for vectors of one kind exactly one of a<b, a=b, b<a holds, it is transitive, and <= means < or =.",
 ['inputs'],"all pairs and triples of coarse, fine and plain vectors with grid coordinates",
 "Tests compare a handful of constants.",
 [R+'vector/__init__.py'],[('__eq__, __hash__, __lt__, __le__ of BaseVector, FineVector, CoarseVector',R+'vector/__init__.py')])
prop('C07','Quarter-turn rotation is exact and composes',
 "Rotating a vector on the half-unit grid by a multiple of 90 degrees, or by a cardinal direction, is the exact counter-clockwise quarter turn about the vertical axis: it keeps the kind, the height and the distance from the axis, four quarter turns are the identity, turns compose by adding angles, and rotation distributes over addition. Rotating about an offset centre is conjugation by that centre; the named directions are the successive quarter turns of one another, and turning a yaw angle by a direction adds that direction's angle modulo 360.",
 ['inputs'],"all half-grid vectors with |c| <= 2^20, all multiples of 90 degrees up to a hundred full turns either way, all four directions, all half-grid centres",
 "Tests rotate two unit vectors; rounding through sine/cosine could fail for large or half-unit coordinates.",
 [R+'vector/__init__.py',R+'vector/orientations.py'],[('BaseVector.rotate/offset_rotate',R+'vector/__init__.py'),('direction constants, rotate_yaw, get_vector_rotation',R+'vector/orientations.py')])
prop('C08','Shape point generators produce exactly the points of their shape',
 "The cuboid generator yields each point of the box exactly once and no other point, a negative extent n covering n+1..0; the wall generator yields each point of the clamped square on the named face exactly once; the column generator yields the multiples 0..n-1 of the unit step in its direction. Nothing is yielded for empty sizes.",
 ['inputs'],"all integer extents of either sign, all six faces, all clamps, all cardinal/vertical directions",
 "Tests count points for sizes up to 8.",
 [R+'prefabs/construction_kit.py'],[('cube_points, wall_points, column_points',R+'prefabs/construction_kit.py')])
prop('C09','Construction shapes stay the same under room rotation',
 "Drawing a cuboid, floor, ceiling, wall, low wall, ring, column, dotted column or single cube in a room facing any direction gives exactly the set of voxels obtained by drawing it in the same room facing east and turning it about the vertical centre line of the room's own tile; in particular a shape inside the room's tile stays inside that tile. In a room facing east each shape covers exactly its documented extents starting at its offset from the room's corner, on integer voxel positions.",
 ['inputs'],"all room positions, all four orientations, all integer offsets, all positive sizes, faces, lengths and dot patterns",
 "Tests compare a few shapes at fixed positions, mostly facing one direction.",
 [R+'prefabs/construction_kit.py',R+'vector/__init__.py',R+'vector/orientations.py'],[('x_cube, x_column, x_dotted_column, x_rectangular_prism, x_wall, x_floor, x_ceiling, x_ring, x_low_wall',R+'prefabs/construction_kit.py')])
prop('C10','A drawing call changes exactly the voxels of its shape',
 "Issuing a named drawing command puts a solid cube with the requested texture at every point of the shape and leaves every other voxel as it was; in subtract mode it removes exactly the shape's voxels; with a probability p each shape voxel independently is set (when the draw is at most p, always for p >= 1) or removed, never anything else. An unknown shape name raises an error and changes nothing.",
 ['inputs'],"all shapes (arbitrary point sequences), worlds, textures, probabilities and outcomes of the random draws",
 "Tests draw small shapes into empty worlds.",
 [R+'prefabs/construction_kit.py',R+'voxel/__init__.py',R+'objects.py'],[('ConstructionKitMixin.x, subtract_or_skip',R+'prefabs/construction_kit.py'),('cube.newtexcube/texturize',R+'objects.py')])
prop('C11','Rooms never overlap and open doors are always usable',
 "After any sequence of room registrations with clipping checks on, every occupied position belongs to the one registered room that claims it and no two registered rooms (mirror copies included) share a position; a conflicting registration is refused with an error without entering the conflicting copy. Every open door is inside the map (tile indices 0 to 31), is not an occupied position and belongs to a registered room; a registration opens all usable doors of the new room and keeps every other open door it does not build over. The feasibility test says yes exactly if all mirrored copies fit on free positions without overlapping one another, with positions and doors inside the map, and it changes nothing.",
 ['inputs','histories'],"all manager states satisfying the invariant, all rooms with any finite sets of positions and doors, all mirror modes",
 "Only the bounds predicate is tested; the registration tests are commented out.",
 [R+'upm.py'],[('register_room/_register_room/preregister_room/_preregister_room/is_legal',R+'upm.py')])
prop('C12','Mirrored copies are exact rotations about the map centre',
 "With mirroring 1, 2 or 4, registering a room produces that many copies: the first is the room itself and copy k is the room turned by k*360/mirror degrees about the map's centre tile (16,16), so that positions, door positions and door directions of the copies are exactly the rotated ones; the original room object is not modified. Recorded links pair the copies of both rooms under the same turn.",
 ['inputs','configurations'],"all integer room positions and orientations, all rooms with any finite sets of relative positions and doors, mirror in {1,2,4}",
 "No test uses mirroring.",
 [R+'upm.py',R+'vector/__init__.py',R+'prefabs/__init__.py'],[('_yield_mirrored, _yield_mirrored_positions, register_link',R+'upm.py'),('Room.get_positions/get_doorways',R+'prefabs/__init__.py')])
prop('C13','Newly placed rooms and end caps join the open door they were offered for',
 "Every room offered for an open door really has a door that faces back at the previous room: the new room's door opening coincides with the cell just behind the open door, and the cell in front of the new room's door that leads back belongs to the new room's own outline as it will be built (with the options it will be built with). Offered rooms pass the feasibility test, and nothing that fits is left out: a room type (without random options) is offered in every orientation, by every door, that would lead back to the previous room and passes the test. An end cap is only placed if all its positions are inside the map and free, and an open door stays without a cap only if none of the end caps (which have one door) fits there in any orientation; placing rooms registers at most the requested number (rounded up to a multiple of the mirror factor) and records one link per copy.",
 ['inputs','histories'],"all room types with arbitrary door sets that may depend on orientation and random options, all open doors, all outcomes of the random choices",
 "Random placement is not tested at all.",
 [R+'upm.py',R+'prefabs/__init__.py'],[('room_localization, _room_cap_real, endcap, place_rooms',R+'upm.py'),('Room.randOpts',R+'prefabs/__init__.py')])
prop('C14','Weighted selection always returns an offered, possible candidate',
 "Weighted choice over a non-empty list with non-negative weights and a positive total returns one of the candidates for every outcome of the random draw (never nothing, and a candidate of zero weight only when the draw is exactly at the edge of its empty interval). The stream of room candidates contains every candidate exactly once, and the position chosen for the next room is always one of the open doors. A room is told exactly the transition probabilities listed from its own kind, whatever other rooms were asked before. The random options of a candidate are one value for each option of its type, differing in exactly one from the previous room when that is of the same type, and the previous room keeps its own.",
 ['inputs'],"all finite non-empty candidate lists, all non-negative weights (for the stream of rooms: positive transition probabilities), all random draws",
 "A test would have to hit the exact floating-point draw that falls off the end.",
 [R+'upm.py',R+'prefabs/__init__.py',R+'prefabs/distributions.py'],[('weighted_choice, random_room, random_room_stream, nonrandom_position, random_position',R+'upm.py'),('Room.randOpts, Room.get_transition_probs',R+'prefabs/__init__.py')])
prop('C15','Texture numbers are a stable, gap-free numbering matching the config file',
 "Texture numbers handed out are 0,1,2,... without gaps; asking for the same texture (or, in the colour-based manager, the same colour) again returns the same number and different textures have different numbers, and asking never renumbers earlier ones; whatever category a themed or colour manager is asked for, the answer is the number of a registered texture, for a themed manager of one that the theme lists for that category (among its generic ones for an unknown category). The written config lists, in number order, exactly one texture definition per number, each on its own line(s), so that the game's numbering equals the numbers stored in the map; a definition names every image of its texture and carries exactly the optional settings (colour, specular and parallax scale, glow colour) the texture has, with their values. Every image a definition names in the package's own texture folder is one of the texture's files, and copying the texture data copies every file of every numbered texture, and nothing else, under its own name from the texture's folder of the package into one folder.",
 ['inputs','histories'],"all request sequences over all texture managers and themes; all colours",
 "No test touches textures.",
 [R+'textures/__init__.py',R+'textures/basetex.py',R+'textures/dull.py',R+'textures/dull_theme.py'],[('TextureManager.get, _get_colour, get_c, emit_conf, copy_data',R+'textures/__init__.py'),('conf() and files() of the texture classes',R+'textures/basetex.py')])
prop('C16','MagicaVoxel export is well formed and reads back as the same model',
 "Exporting a voxel world writes a valid .vox file: every chunk's declared size equals its content, the voxel count equals the number of voxel records, the palette has 256 entries, and the package's own reader consumes exactly the whole file. Reading it back gives precisely the voxels whose coordinates lie in 0..255, at the same positions, with a colour index c in 1..255 that selects in the written palette (record c-1, as the .vox format numbers colours) the colour of the voxel's texture to within one step of 1/255; the declared model size encloses all those voxels.",
 ['inputs'],"all voxel worlds built by setting and deleting single-texture voxels at integer positions, all texture atlases of up to 255 colours with components in 0..1, all voxel textures inside the atlas",
 "No test writes or reads a .vox file.",
 [R+'magicavoxel/writer.py',R+'magicavoxel/reader.py'],[('to_magicavoxel',R+'magicavoxel/writer.py'),('Magicavoxel and its chunk classes',R+'magicavoxel/reader.py')])
prop('C17','After-effects touch only what they describe',
 "The box effect sets exactly the six outer faces, the outline effect exactly the outer edges, both up to the given height; in a world whose voxels lie inside it, the grid and growth effects only fill vacant positions inside the world and only (grid) on lines of the given spacing; decay only removes, exactly where the draw exceeds the position function; the end-cap effect fills exactly the 8x8x8 block at each open door. Everything else keeps its voxel, and the gradient functions that serve as probabilities stay in 0..1 and are monotone in height for heights 0..256.",
 ['inputs'],"all worlds, world sizes, heights, spacings, position functions and outcomes of the random draws",
 "Tests check one 10-cube world per effect and mostly only one direction of the implication.",
 [R+'aftereffects.py'],[('box, box_outline, grid, growth, decay, endcap, vertical_gradient*, gradient3',R+'aftereffects.py')])
prop('C18','Lights and helper entities carry correct positions and attributes',
 "A light added for a position is exactly one entity at the tile-centred position scaled to the map's world size, with colour components that are integers from 0 to 255 for any brightness from 0 to 1 and saturation from 0 to 1, and exactly the requested colour when one is given, with or without automatic centring. Each helper entity has the type code, the attribute order and number of its kind, and its arguments end up in the named attributes; positions of fine or coarse vectors are stored as four times the fine position (a sunlight keeps the position it is given).",
 ['inputs'],"all positions, brightness and saturation values, override colours, attribute values",
 "No test covers lights or entities.",
 [R+'lighting/__init__.py',R+'entities/__init__.py',R+'entities/weapon.py',R+'entities/model.py'],[('LightManager.light/get_light, PositionBasedLightManager.hue',R+'lighting/__init__.py'),('Entity subclasses',R+'entities/__init__.py')])
prop('C19','Rooms build only inside the space they claim and their doors lead out of it',
 "For every built-in room type used for generation, procedural or made from a voxel model, at every position, in every orientation and with every combination of its options, every voxel it sets or clears lies in one of the tiles it claims as occupied, and its entities other than lights lie there too; every light stands at most two tiles (in each direction) from a claimed tile. Every door position is a tile the room does not claim, directly next to (in the door's direction of) a tile it does claim, and can be walked through: once the room is drawn, no voxel in the middle of the doorway (in the outermost layer of that claimed tile: voxels 2 to 5 across, 1 to 4 up) is set, except by the randomly placed poles of the pole room. The claimed tiles are distinct, drawing does not change them and never fails.",
 ['inputs','configurations'],"all integer room positions, 4 orientations, all option flags, all outcomes of random draws, for every room type used for generation (tile t covers voxels 8t to 8t+7 on each axis)",
 "No test renders a room.",
 [R+'prefabs/__init__.py',R+'prefabs/construction_kit.py',R+'prefabs/magica.py'],[('render/_get_positions/_get_doorways of the room classes',R+'prefabs/__init__.py'),('MagicaRoom.load_model/render',R+'prefabs/magica.py'),('doors of the model rooms',R+'prefabs/castle/__init__.py')])
prop('C20','The JSON dump of a map is complete and serialisable',
 "Every readable map can be dumped to JSON without error, also after entities made by the package were added, and the dump states the header fields, meta values and map variables in order (bytes that are not UTF-8 in a form that converts back), the texture list, every entity with its type name, position, named attributes, links and reserved bytes, every texture slot with its fields, and every cube with its marker, edges, textures, material, merge byte and extension (surface mask, vertex count, surfaces) and its children, with no entity, cube or slot lost or reordered. Rebuilding the entities from the dump gives entities equal to the dumped ones, in order.",
 ['inputs'],"all maps in the readable domain with finite numbers, all entity kinds and attribute values, all cube trees",
 "No test dumps a map.",
 [R+'__init__.py',R+'entities/__init__.py',R+'objects.py'],[('Map.to_dict/to_json/from_dict',R+'__init__.py'),('Entity.to_dict/from_dict',R+'entities/__init__.py'),('cube/cubext/SurfaceInfo/VSlot.to_dict',R+'objects.py')])
prop('C21','The same seed and inputs give the same map file',
 "Two runs of a generator with the same seed, input map, options and package version write the same config and model files and map files of the same content (after decompression), whenever and wherever they run. Nothing they make depends on the clock, the process, the environment, object addresses, directory order or the order of hash-randomised collections, and every random choice comes from the seeded stream.",
 ['inputs','histories','configurations'],"all seeds and option combinations, all states of the functions a run is made of, all environments",
 "A test can compare two runs of one seed on one machine.",
 [R+'cli/magica_rooms.py',R+'upm.py'],[('main: random.seed and the steps',R+'cli/magica_rooms.py'),('output',R+'cli/__init__.py'),('all draws of the room placement',R+'upm.py'),('TextureManager.get*/emit_conf',R+'textures/__init__.py'),('render and randOpts of the rooms',R+'prefabs/__init__.py'),('light',R+'lighting/__init__.py'),('Map.write',R+'__init__.py')])
prop('C22','Room placement always terminates',
 "Placing rooms stops after finitely many steps for every set of room types and every sequence of random draws: each step either places a room on previously free positions or removes an open door.",
 ['histories'],"all room types, random sequences and map states",
 "Termination over all histories cannot be sampled.",
 [R+'upm.py'],[('place_rooms loop',R+'upm.py')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
