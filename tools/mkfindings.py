"""writes known-findings.json (committed; checks only read it)"""
import json, os
FIXED = [
    ('C11', 'a4b9474', 'a refused room registration left the refused room in the list of rooms'),
    ('C11', '32b06de', 'the feasibility test accepted rooms with positions outside the map'),
    ('C11', '660e926', 'tile index 32 counted as inside the 32x32x32-tile map'),
    ('C13', '7f8ff7c', 'an offered room could lack a door at the open door because random options were applied after choosing the door'),
    ('C14', '77e7b76', 'weighted_choice returned None when rounding kept the running sum below the draw'),
    ('C01', '25650b7', 'the written map file was never closed, so it could stay empty or truncated'),
    ('C01', '178adda', 'byte fields above 127 were written as two UTF-8 bytes'),
    ('C01', '188105d', 'reading a map with a player start of team 5 or more failed (its first attribute was taken for a weapon)'),
    ('C01', '5ff74aa', 'a map variable given as text could not be saved'),
    ('C01', '3f8d616', 'the generators overwrote the marker of the first octant before saving, losing its children'),
    ('C02', '8970e41', 'a skybox was written into the header instead of the map variables'),
    ('C02', '70f3845', 'the number of map variables in the file was the one read, not the one written'),
    ('C18', 'c4d0cca', 'a light without automatic centring failed (unbound position)'),
    ('C18', '3365b61', 'weapons, player starts and models at coarse positions were stored at an eighth of the position'),
    ('C18', '21cae81', 'map models had no attribute names'),
    ('C15', 'aa93f76', 'an unknown texture category yielded the name of a texture instead of its number'),
    ('C15', '14d7ca1', 'the colour line of a bump mapped texture was not ended, so the next texture definition was glued to it'),
    ('C15', '8630412', 'the dull theme listed textures that do not exist (tex8, tex115), so get_c failed'),
    ('C15', '0102946', 'equal colours (1 and 1.0) got two texture numbers'),
    ('C15', 'c054051', 'abstract texture base classes were registered as textures of a theme; writing one crashed (no scale) or named the image None'),
    ('C16', '8957c47', 'the palette had 255 colours, so the reader failed at the end of the file'),
    ('C16', '1d563c4', 'the declared size of the MAIN children was 12 bytes short'),
    ('C16', '97e6fc2', 'voxels outside 0..255 were counted but not written, so the voxel records were misread'),
    ('C16', 'bf5c002', 'the declared model size excluded the outermost voxels'),
    ('C20', '253fef7', 'dumping a map whose cubes have extensions with absent surfaces failed'),
    ('C20', '264deac', 'the dump of a cube left out its merge byte'),
    ('C20', 'e5624c9', 'dumping a map with a weapon made by the package failed (its type is a plain number)'),
    ('C20', 'b1abfe7', 'rebuilding an entity from its dump failed (wrong constructor arguments)'),
    ('C20', '48435b6', 'dumping a map with a variable or meta value that is not UTF-8 failed'),
    ('C19', '804bb46', 'pushers of turned jump corridors and tubes stood outside the room'),
    ('C19', '235c03b', 'drawing a pole room failed (random bound was not a whole number)'),
    ('C19', '44b9afd', 'a low ring room cleared voxels of the tiles above it'),
    ('C19', 'd8a36a0', 'upper doors of the egypt stairs were not next to a claimed tile'),
    ('C19', 'ee8dac8', 'the light of a large room not facing east stood at its position turned about the map origin, outside the room'),
    ('C19', '9ecd530', 'the lights of crossing walkways stood at the map origin instead of in the room'),
]
KNOWN = []
out = {'findings': [dict(property=p, status='fixed', commit=c, text='fixed: property=%s %s %s' % (p, c, t)) for p, c, t in FIXED] + KNOWN}
json.dump(out, open(os.path.join(os.path.dirname(__file__), '..', 'known-findings.json'), 'w'), indent=1)
