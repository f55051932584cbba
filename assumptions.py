"""Per property: what a check takes for granted (domain restrictions and contracts of code it does not verify)."""
A = {
 'C01': ['gzip.open(p, mode) writes/returns exactly the bytes given to it; struct formats as documented (native little-endian, checked against CPython at load)',
         'IEEE rounding of float values to 32 bits is identity on values representable in binary32 (domain)',
         'domain: octree no deeper than the world size has room for, leaves at most 4096 units, surfaces without vertices, relative (negative) slot changes, seven supported entity kinds, weapon types in the enumeration, entity positions multiples of 1/16',
         'the cube tree is covered by structural induction: _loadc uses the contract of _loadchildren and vice versa'],
 'C02': ['gzip/struct as in C01', 'the layout oracle is the documented one (class documentation of Map, engine format), written in harness/hmap.py',
         'the cube tree is covered by structural induction: _savec uses the contract of _savechildren and vice versa'],
 'C03': ['the recursive call obeys the contract being proved, at half the size (induction on the size); the size halves exactly', 'domain: voxels inside the world'],
 'C04': ['values stored are not None'],
 'C05': ['coordinates are integers or multiples of 1/16 with |c| <= 2^20, so float arithmetic on them is exact (magnitudes are checked by the verifier)'],
 'C06': ['as C05; hash() of numbers and tuples is a function that respects ==', 'sorted() with cmp from __lt__: contract of list.sort for a strict weak order'],
 'C07': ['math.sin/cos at multiples of pi/2 lie within 1e-9 of the exact values (evaluated, not assumed, for the turns enumerated)', 'angles: every quarter turn from -400 to 400 (each is enumerated; the code computes sin/cos of it)'],
 'C08': ['wall sizes up to 100 where a clamp is left at its default 100'],
 'C09': ['rooms on whole tiles; the four orientation constants of redeclipse.vector.orientations'],
 'C10': ['the point generators are arbitrary finite sequences of points (their own contracts are C08/C09)', 'random.random returns any value of [0, 1)'],
 'C11': ['states satisfy the invariant of the statement (it is proved to be preserved)', 'dictionary lookups by equal coarse vectors agree (C06)', 'copy.deepcopy copies'],
 'C12': ['copy.deepcopy copies'],
 'C13': ['random.sample(list, n) returns an arbitrary permutation', 'preregister_room and register_room by the contracts of C11/C12', 'room classes: constructors that only place the room (as for all built-in classes)'],
 'C14': ['numbers of options 0 to 5 and the transition tables of the package are enumerated (more options do not occur)', 'random.uniform(a, b) returns any value in [a, b]', 'random.sample returns an arbitrary permutation', 'positive transition probabilities, non-empty candidate lists'],
 'C15': ['os and shutil are stand-ins that record what copy_data asks of them (nothing is copied; that the source images exist is not claimed: some are not in the repository)', 'str() of floats is injective', 'random.choice returns any element', 'open(...).write as documented'],
 'C16': ['kaitaistruct.KaitaiStream reads as documented (stub model; the real one is used in the bounded search)', 'at most 2^24 distinct positions lie in 0..255 (counting lemma)', 'colour components on the grid k/1024 in the proof, k/255 and decimal fractions in the bounded search'],
 'C17': ['voxels of the world lie inside it (domain of the statement)', 'random draws arbitrary; position functions arbitrary', 'noise.pnoise3 returns a value in [-1, 1]', 'gradients are evaluated for every integer height 0..256 (exhaustive)'],
 'C18': ['noise.pnoise3 returns a value in [-1, 1]', 'colorsys.hsv_to_rgb/rgb_to_hsv are executed (their Python source is run symbolically, not assumed)'],
 'C19': ['LIGHTMAN.light adds one light only, at the (centred) position given (C18); TEXMAN.get_c/get_colour return texture numbers (C15)', 'ConstructionKitMixin.x by its contract, proved in the same check', 'voxel models are read as they are in the repository (concrete data)', 'lights need only stand within two tiles of a claimed tile'],
 'C20': ['simplejson encodes plain values faithfully and rejects others (the real encoder is used in the bounded search)', 'domain as C01, finite numbers'],
 'C21': ['domains and loop/callee contracts of the contracts of C01-C19 that are re-run in effect mode; functions compose: a run whose parts depend on inputs, state and stream only is a function of them',
         'CPython itself is deterministic apart from the listed sources (clock, process, environment, directory order, addresses, hashes of text, unseeded generators)',
         'library functions called (struct, gzip contents, math, noise, colorsys, copy, json) are functions of their arguments; a source reached through another library is not seen'],
 'C22': ['callees by their contracts (C11, C13, C14)', 'ranking: a step either registers a room on free legal positions (at most 32^3) or removes an open door'],
}
