"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
J='pytiled_parser/parsers/json/'; T='pytiled_parser/parsers/tmx/'; P='pytiled_parser/'
rows=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    rows.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or ["return value of parse_map / parse_tileset / parse_world"],hook_needed=None)))
FX="The suite parses about 40 fixture documents, each with one fixed set of present attributes and one fixed set of values"
p("C01","Format is decided by content, independently for every file",
 "Every map, tileset and object-template file is read as XML exactly when its first character is '<' and as JSON otherwise, whatever its name or extension and whatever the format of the file that refers to it. A map may therefore mix XML and JSON tilesets freely, and each is parsed by the parser of its own format. An empty or non-XML, non-JSON file passed as a map or tileset is reported as an unknown format.",
 ["inputs","configurations"],"all combinations of main-file format, referenced-tileset format and template format, any file names",
 FX+"; the mixed combinations tested are two, with conventional extensions",
 [P+"parser.py",P+"util.py",J+"tiled_map.py",T+"tiled_map.py"],[("content sniffing",P+"util.py:check_format"),("dispatch on sniffed format",P+"parser.py, "+J+"tiled_map.py, "+T+"tiled_map.py")])
p("C02","Map-level attributes are reported faithfully",
 "For every well-formed map, each map-level attribute (sizes, tile size, orientation, render order, infinite, next ids, versions, class, background colour, hexagonal side length, stagger settings, parallax origin, properties) of the returned map equals the value written in the document, including zero, false and empty values. An attribute the document leaves out takes its documented default. No attribute's value depends on which other optional attributes are present.",
 ["inputs"],"all well-formed maps in both formats: every subset of optional map attributes, every value",
 FX+"; a value lost only when it is zero, or only when another attribute is missing, is not among them",
 [J+"tiled_map.py",T+"tiled_map.py",P+"tiled_map.py"],[("attribute-by-attribute copy",J+"tiled_map.py:parse, "+T+"tiled_map.py:parse")])
p("C03","Layer attributes are reported faithfully for every layer kind",
 "For every layer of every kind (tile, object, image, group) the common attributes (name, id, class, opacity, visibility, offset, parallax factors, tint, repeat flags, start coordinates, size, properties) and the kind-specific ones (draw order, image, transparent colour) equal what the document says for that layer, including zero, false and empty values. An attribute left out takes its documented default, independently of every other attribute, so that either half of an offset or parallax pair may be given alone.",
 ["inputs"],"all layers in both formats: every subset of optional attributes, every value, every nesting depth",
 FX+"; each kind appears with a handful of attribute subsets",
 [J+"layer.py",T+"layer.py",P+"layer.py"],[("shared common-attribute parser",J+"layer.py:_parse_common, "+T+"layer.py:_parse_common")])
p("C04","The layer tree is preserved: each layer once, in order, at its own level",
 "The layers of the returned map are exactly the document's top-level layers, each once, in document order, and every group contains exactly its own children, each once, in document order, to any nesting depth. Each object layer holds exactly its own objects in document order. A layer is of the class that corresponds to its kind in the document, and an unknown layer kind in a JSON map is an error, never a silent guess or omission.",
 ["inputs"],"all maps: any number, mixture and nesting of layer kinds",
 FX+"; the fixtures with groups do not mix kinds in an order that exposes regrouping or duplication",
 [J+"layer.py",T+"layer.py",J+"tiled_map.py",T+"tiled_map.py"],[("recursive layer dispatch",J+"layer.py:parse, "+T+"layer.py:parse"),("top-level layer enumeration",T+"tiled_map.py:parse")])
p("C05","Tile data decodes to the exact row-major grid of 32-bit global ids",
 "For every supported encoding and compression (CSV or plain list, Base64 uncompressed, gzip, zlib, zstd when installed), the decoded grid of a tile layer or chunk holds exactly the encoded ids, each read as a little-endian unsigned 32-bit integer with its flip flags intact. Ids are laid out row by row using the width of that very layer or chunk; infinite maps keep every chunk with its own position and size. An unsupported or unavailable compression, or tile data in the unsupported form of tile elements, is an error, never silently misread or dropped data.",
 ["inputs","configurations"],"all layer and chunk dimensions, all id values, all encodings and compressions, zstd installed or not",
 FX+": a few small grids with small ids; flags in the top bits, non-square chunks and unknown compressions are not covered",
 [J+"layer.py",T+"layer.py"],[("decode and regroup",J+"layer.py:_decode_tile_layer_data/_convert_raw_tile_layer_data and the "+T+"layer.py twins")])
p("C06","Object attributes, shapes and text settings are reported faithfully",
 "For every map object, the id, position, size, rotation, visibility, name, class and properties equal what the document says for that object, including zero, false and empty values, with the documented default for each attribute left out. Polygon and polyline points are all kept, in order, with x and y in place; a text object's text and every text setting, and a tile object's global id, are likewise exact. No attribute's value depends on which other optional attributes are present.",
 ["inputs"],"all objects of all kinds in both formats: every subset of optional attributes, every value",
 FX+"; text settings in particular appear in two combinations",
 [J+"tiled_object.py",T+"tiled_object.py",P+"tiled_object.py"],[("common object parser",J+"tiled_object.py:_parse_common, "+T+"tiled_object.py:_parse_common"),("text parser",J+"tiled_object.py:_parse_text, "+T+"tiled_object.py:_parse_text")])
p("C07","Every object is classified by its own marker",
 "An object is returned as an ellipse, point, polygon, polyline, text or tile object exactly when the document marks it so, and as a rectangle exactly when it carries none of these markers. The classification does not depend on any other attribute of the object, and holds for objects of layers, of nested groups, of tile collision groups and of templates alike.",
 ["inputs"],"all objects in both formats: each marker with every combination of other attributes",
 FX+"; each marker appears only with the attributes of one fixture",
 [J+"tiled_object.py",T+"tiled_object.py"],[("parser selection",J+"tiled_object.py:_get_parser/parse, "+T+"tiled_object.py:_get_parser/parse")])
p("C08","Template instances: instance values win, tileset and gid are resolved",
 "An object that instantiates a template takes every value it states itself from the instance, every other value from the template, and always its own id; custom properties are merged by name with the instance winning. A tile object's template-relative gid is re-based onto the tileset of the same name already in the map, or else onto a newly registered tileset whose first gid is the highest first gid in use plus that tileset's tile count (1 in a map without tilesets), at every layer-group depth and whichever format that tileset is in. A template of the other format than the map is refused with a not-implemented error, and a template without a known directory is an error.",
 ["inputs"],"all templates and instances: every split of attributes between them, every nesting depth, tileset already known or not, each tileset format",
 FX+"; template fixtures have top-level instances that override nothing but position",
 [J+"tiled_object.py",T+"tiled_object.py",J+"tiled_map.py",T+"tiled_map.py",P+"util.py"],[("template merge",J+"tiled_object.py:parse, "+T+"tiled_object.py:parse"),("late tileset registration",J+"tiled_map.py:parse, "+T+"tiled_map.py:parse")])
p("C09","Tileset and tile definitions are reported faithfully",
 "For every tileset, embedded or external, every attribute (name, sizes, counts, columns, spacing, margin, versions, class, alignment, render size, fill mode, colours, offset, grid, transformations, image size) and every tile definition with its class, image and size, sub-rectangle, animation frames in order, collision objects and properties equals what the document says, including zero and empty values. Anything left out takes its documented default, and a tile's width and height default to its image's size. No value depends on which other optional parts are present.",
 ["inputs"],"all tilesets in both formats: every subset of optional attributes and parts, every value",
 FX+"; tile sub-rectangles, per-part defaults and zero values are sparsely sampled",
 [J+"tileset.py",T+"tileset.py",P+"tileset.py"],[("tileset and tile parsers",J+"tileset.py:parse/_parse_tile, "+T+"tileset.py:parse/_parse_tile")])
p("C10","Terrain (Wang) sets are reported faithfully",
 "For every Wang set, its name, type, class, representative tile and properties, its colours in document order with name, class, colour, probability, tile and properties, and its Wang tiles with their full ordered id list equal what the document says. Nothing is dropped, reordered or shared between sets.",
 ["inputs"],"all Wang sets in both formats: any number of sets, colours and tiles, every subset of optional attributes",
 FX+"; Wang sets with class or properties appear in few fixtures",
 [J+"wang_set.py",T+"wang_set.py",P+"wang_set.py"],[("Wang set parsers",J+"wang_set.py:parse, "+T+"wang_set.py:parse")])
p("C11","Custom properties: every property, its declared type, on its own element",
 "Wherever custom properties are allowed (map, layers, objects, tilesets, tiles, Wang sets, Wang colours), the result contains exactly that element's own properties, by name, and none of its parent's, child's or sibling's. Each value of a documented type has its declared type: text as string, numbers as numbers, booleans as booleans, files as paths, colours as colours, whatever the value (zero, false, empty and multi-line text included).",
 ["inputs"],"all property lists on all owners in both formats: every type, every value",
 FX+"; multi-line strings, empty strings and false-y values are not sampled on every owner",
 [J+"properties.py",T+"properties.py"],[("typed property parser",J+"properties.py:parse, "+T+"properties.py:parse")])
p("C12","File references resolve relative to the file that contains them",
 "An external tileset is looked up relative to the map, a template relative to the map, and a template's tileset relative to the template; only these files are opened. Image paths of an external tileset, and of its tiles, are returned absolute and resolved against that tileset's own directory; image paths of embedded tilesets and image layers are returned exactly as written. The result never depends on the current directory's contents or on another file's location.",
 ["inputs","configurations"],"all directory layouts: any relative or absolute references between map, tilesets, templates and images",
 FX+" in which map, tileset and image mostly share one directory, so wrong base directories coincide",
 [J+"tiled_map.py",T+"tiled_map.py",J+"tileset.py",T+"tileset.py",P+"util.py"],[("path joins at each reference",J+"tiled_map.py:parse, "+T+"tiled_map.py:parse, "+P+"util.py:load_object_template"),("external_path parameter",J+"tileset.py, "+T+"tileset.py")])
p("C13","Id-keyed collections are keyed by each member's own id and lose none",
 "Every tileset of a map, embedded, external or registered from a template, is stored under its own first gid and that key equals the tileset's recorded first gid; a tileset parsed on its own has first gid 1. Tiles are stored under their own tile id and Wang tiles under theirs. Every entry of the document is present and none is stored under another entry's key.",
 ["inputs"],"all maps and tilesets: any number of tilesets, tiles and Wang tiles, sparse and unordered ids",
 FX+", mostly with one tileset and first gid 1",
 [J+"tiled_map.py",T+"tiled_map.py",J+"tileset.py",T+"tileset.py",J+"wang_set.py",T+"wang_set.py"],[("dict construction",J+"tiled_map.py:parse, "+J+"tileset.py:parse, "+J+"wang_set.py:parse and the tmx twins")])
p("C14","No state is shared between objects or between parses",
 "Each parse builds its result from the given files only: parsing the same or another document again, in any order and any number of times, gives a result that neither affects nor is affected by earlier results. Within one result no two elements share a mutable container, so changing one object's properties, points or grid never changes another's. No module-level or default-argument state is modified by parsing.",
 ["histories","inputs"],"all sequences of parse calls and of edits to their results",
 "Each test parses one document in isolation and compares values; sharing only shows after a mutation or a second parse",
 [P+"tiled_object.py",P+"layer.py",P+"tileset.py",J+"layer.py",T+"layer.py",J+"tiled_object.py",T+"tiled_object.py"],[("fresh containers per element",P+"tiled_object.py and all parsers")],["object graph of the results","module-level state"])
p("C15","Parsing only reads: no writes, output, execution or leaked handles",
 "Parsing opens files for reading only and closes each one on every path, including failing ones. It writes nothing to disk, standard output or standard error, changes no environment, working directory or global interpreter setting, starts no process or network connection, and never executes or evaluates content of a document. The caller's arguments are not modified.",
 ["inputs","fault_sequences"],"all inputs, valid or not, on every execution path",
 "Tests assert on return values, not on side effects, and exercise few failing paths",
 [P+"parser.py",P+"util.py",P+"world.py",J+"tiled_map.py",T+"tiled_map.py"],[("scoped read-only opens",P+"parser.py, "+P+"util.py, "+P+"world.py, "+J+"tiled_map.py, "+T+"tiled_map.py")],["effects of every reachable call"])
p("C16","Failures surface: no error is swallowed, and unknown formats are named",
 "An error met while reading or interpreting a map, tileset, template or world always reaches the caller; nothing is skipped or replaced by a default because reading it failed. Invalid JSON given as a map, as a tileset, or as an external tileset of a JSON map is reported as the library's unknown-format error; other failures (missing file, missing required attribute, unknown layer kind, image layer without an image, unsupported compression) propagate as errors.",
 ["inputs","fault_sequences"],"all malformed or missing inputs, at any depth of nested files",
 "Three malformed fixtures are tested; a handler that swallows an error is invisible on valid input",
 [P+"parser.py",J+"tiled_map.py",J+"layer.py",T+"layer.py",J+"tiled_object.py",T+"tiled_object.py"],[("narrow exception translation",P+"parser.py, "+J+"tiled_map.py"),("explicit raises",J+"layer.py:parse, "+T+"layer.py")],["exceptions leaving the public functions"])
p("C17","Worlds list every explicit and pattern-matched map at its place",
 "A world's map list holds every explicitly listed map, in order, with its path relative to the world file, its position and its size, followed by every file of the world's directory whose name matches a pattern from its start, positioned at (first captured number times x-multiplier plus x-offset, second times y-multiplier plus y-offset), with offsets defaulting to zero, and sized by the multipliers. Files that do not match, and directories, are not listed. The only-show-adjacent flag is as written, false if absent, and no listed map is opened.",
 ["inputs","configurations"],"all world files and directory contents",
 FX+"; pattern offsets, negative captures and non-matching neighbours are barely sampled",
 [P+"world.py"],[("map list and pattern expansion",P+"world.py:parse_world")])
p("C18","XML and JSON renditions of one document give the same result",
 "The same map or tileset saved in the XML format and in the JSON format parses to equal results: equal layer trees, grids, objects, tilesets, Wang sets, properties and paths, and the same default for every attribute both formats may leave out. Every attribute supported from one format is supported from the other.",
 ["inputs"],"all pairs of XML and JSON renditions of the same document",
 "Tests compare each format with its own expected value on separately exported fixtures; agreement on attributes no fixture has is untested",
 [J+"layer.py",T+"layer.py",J+"tiled_object.py",T+"tiled_object.py",J+"tileset.py",T+"tileset.py",J+"wang_set.py",T+"wang_set.py",J+"tiled_map.py",T+"tiled_map.py",J+"properties.py",T+"properties.py"],[("sibling parsers","parsers/json/* and parsers/tmx/*")])
p("C19","Every returned value has its documented type",
 "Every attribute of every returned object has the type its class documents, for every document in either format: whole numbers are integers, measures are numbers, flags are booleans, text is a string, colours, sizes and coordinates are their value types, paths are path objects. In particular a number, flag or version never comes back as raw document text, and a flag written '0' is false.",
 ["inputs"],"all well-formed documents in both formats, every attribute",
 FX+"; equality assertions treat 1, 1.0 and True alike",
 [J+"tiled_map.py",T+"tiled_map.py",T+"layer.py",T+"tiled_object.py",T+"tileset.py",T+"wang_set.py",P+"layer.py",P+"tiled_object.py",P+"tileset.py",P+"tiled_map.py",P+"wang_set.py"],[("explicit conversions","parsers/tmx/*"),("declared field types",P+"*.py model classes")])
p("C20","Colours convert channel by channel from #AARRGGBB or #RRGGBB",
 "Every colour in a document, with or without the leading '#', with six or eight hexadecimal digits in either case, becomes the colour whose alpha, red, green and blue are the corresponding digit pairs, alpha being fully opaque when only six digits are given. This holds at every place a colour can occur, and text with another number of digits is refused with a value error.",
 ["inputs"],"all colour strings at all colour-valued attributes and properties",
 "Five colours are tested on the conversion function itself; the other call sites see one or two colours each",
 [P+"util.py",T+"tileset.py",T+"layer.py",J+"layer.py",J+"tileset.py"],[("colour conversion",P+"util.py:parse_color")])
p("C21","Results do not depend on the platform's locale",
 "Maps, tilesets, templates and worlds are decoded as UTF-8 regardless of the platform's locale or preferred encoding, so names, text and properties with any characters come back identical everywhere.",
 ["inputs","configurations"],"all documents with non-ASCII text under all locale settings",
 "The suite runs under one locale with ASCII fixtures",
 [P+"parser.py",P+"util.py",P+"world.py",J+"tiled_map.py",T+"tiled_map.py"],[("explicit encoding at each text open",P+"parser.py, "+P+"util.py, "+P+"world.py, "+J+"tiled_map.py, "+T+"tiled_map.py")],["encoding argument of every open"])
p("C22","Parsing terminates: work is bounded by the document",
 "Parsing any finite document terminates: every loop runs over a finite part of the document or a directory listing, and every recursion descends into a strictly smaller part of the document. No loop or recursion can be kept alive by the values in the document.",
 ["inputs"],"all finite inputs, including deeply nested and adversarial ones",
 "Tests exercise a few small documents; non-termination needs a particular value or nesting",
 [J+"layer.py",T+"layer.py",J+"tiled_map.py",T+"tiled_map.py",P+"world.py"],[("for-loops over parsed data; recursion into child layers",J+"layer.py:parse/_parse_group_layer, "+T+"layer.py:parse/_parse_group_layer")],["loops and call-graph cycles"])
p("C23","Well-formed documents parse: optional parts may always be absent",
 "Every well-formed map, tileset and world parses without an error, whichever optional attributes and parts it leaves out or includes, in any combination, and however many (including zero) layers, objects, tilesets, tiles, frames, Wang sets and properties it has.",
 ["inputs"],"all well-formed documents: every combination of optional attributes and every multiplicity, zero included",
 FX+"; combinations such as one half of a pair, or an empty list, are mostly absent",
 [J+"layer.py",T+"layer.py",J+"tiled_object.py",T+"tiled_object.py",J+"tileset.py",T+"tileset.py",J+"wang_set.py",T+"wang_set.py",J+"tiled_map.py",T+"tiled_map.py",P+"world.py"],[("presence tests before each optional read","all parsers")])
p("C30","Parsing time and memory are proportional to the document",
 "The time and memory used to parse a document grow linearly with the size of the document and of the data it decompresses to.",
 ["inputs"],"all documents, including highly compressed ones",
 "Tests use small documents and no resource measurement",
 [J+"layer.py",T+"layer.py"],[("single pass over the decoded data",J+"layer.py, "+T+"layer.py")])
p("C31","Decompression and document libraries decode correctly",
 "What the JSON, XML, Base64, gzip, zlib and zstd decoders return for a document is the content that document encodes.",
 ["inputs"],"all encoded payloads",
 "Only a few payloads are decoded",
 [J+"layer.py",T+"layer.py"],[("use of the decoding libraries",J+"layer.py, "+T+"layer.py")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for r in rows: f.write(json.dumps(r)+"\n")
print(len(rows))
