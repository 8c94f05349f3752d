#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=("pytiled_parser.parse_map",), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(quant.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": ["pytiled_parser/" + f for f in files],
                          "state": [{"name": a, "meaning": b, "where": "pytiled_parser/" + c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": "pytiled_parser/" + b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

J, X = "parsers/json/", "parsers/tmx/"

p("P01", "TMX and JSON saves of one map load as equal maps",
  """For every map that Tiled can save, loading its TMX save and loading its JSON save give equal maps: same header,
  tilesets, layer tree, tile data, objects and custom properties, in any combination of TSX and JSON external tilesets.
  Only what a format does not record may differ (the path of the map file, and the start coordinates of an infinite layer).""",
  ["inputs", "configurations"], "all maps, over both formats and every combination of tileset storage",
  "Tests compare two dozen hand-saved pairs against a fixed expectation; no test compares the two parsers on any other map, and most attribute combinations never occur in the fixtures.",
  [J+"tiled_map.py", X+"tiled_map.py", J+"layer.py", X+"layer.py", J+"tiled_object.py", X+"tiled_object.py", J+"tileset.py", X+"tileset.py", J+"wang_set.py", X+"wang_set.py", J+"properties.py", X+"properties.py"],
  [("two parallel parser families producing one model", J+"tiled_map.py, "+X+"tiled_map.py")])

p("P02", "The layer tree mirrors the document's layer tree",
  """The loaded map's layers are exactly the document's layers: every layer appears once, at its own place in the nesting,
  in document (draw) order among its siblings, and with the type it has in the document. Nothing that is not a layer of the
  map (for example a tile's collision shapes in an embedded tileset) appears in the tree, at any nesting depth.""",
  ["inputs"], "all layer forests: any mix of the four layer types, any depth, any order, both formats",
  "Fixtures have one group with one child and never interleave types inside a group; order, nesting and duplication for general forests are unexercised.",
  [J+"layer.py", X+"layer.py", J+"tiled_map.py", X+"tiled_map.py", "layer.py"],
  [("recursive dispatch on layer type", J+"layer.py:parse, "+X+"layer.py:parse"), ("collection of top-level layers", X+"tiled_map.py:parse"), ("group children", X+"layer.py:_parse_group_layer")])

p("P03", "Finite tile layers decode to the exact grid in every encoding",
  """A finite tile layer is loaded as one row per tile row and one cell per tile column, in row-major order, each cell being the
  stored unsigned 32-bit global id with its flip bits intact. The result is the same whether the data is stored as CSV or a plain array, or as
  base64 that is uncompressed, gzip-, zlib- or (where the optional zstd module is installed) zstd-compressed; a compression that is not supported is rejected with an error and never decoded as something else.""",
  ["inputs", "configurations"], "all grids (any width, height and 32-bit cell values) under every storage encoding and both formats",
  "Four fixtures store one 8x6 grid of ids 1..48; no flip bits, no other shapes, no value above one byte.",
  [J+"layer.py", X+"layer.py"],
  [("byte accumulator and row splitter", J+"layer.py:_decode_tile_layer_data/_convert_raw_tile_layer_data"), ("same in TMX", X+"layer.py:_decode_tile_layer_data/_convert_raw_tile_layer_data")],
  [("tile_grid/byte_count/int_value", "accumulated words and rows", J+"layer.py:_decode_tile_layer_data")])

p("P04", "Infinite layers keep every chunk with its place, size and cells",
  """A tile layer of an infinite map is loaded as exactly the document's chunks, in document order, each with its own coordinates
  (possibly negative), its own width and height, and its own cells laid out by that width, under every encoding. A layer without any chunk loads as an empty layer, not as an error.""",
  ["inputs", "configurations"], "all chunk lists (including empty), chunk sizes and positions, under every encoding and both formats",
  "Two fixtures with a few chunks that all share one size; empty layers and chunks whose size differs from the layer's are not covered.",
  [J+"layer.py", X+"layer.py"],
  [("chunk parsing", J+"layer.py:_parse_chunk, "+X+"layer.py:_parse_chunk"), ("choice between chunks and flat data", X+"layer.py:_parse_tile_layer")])

p("P05", "Global tile ids keep designating the tile the document means",
  """After loading, every tile object's global id, with its flip bits unchanged, designates the tile the document means: an id written on the map
  keeps its value, and an id that comes from a template designates the same tile of the tileset that template names. A tileset that only templates use is added to the map
  once, without changing the first ids of the map's own tilesets and without overlapping the ids any other tileset uses; this holds wherever in the layer tree the object is.""",
  ["inputs", "histories"], "all sequences of template and plain tile objects over all tileset tables (empty, gapped, out of order), both formats, any nesting",
  "One fixture with two template tile objects at top level and a table that happens to be contiguous; no test checks an empty table, nested groups, same-named tilesets or sparse image collections.",
  [J+"tiled_map.py", X+"tiled_map.py", J+"tiled_object.py", X+"tiled_object.py", "util.py"],
  [("template tileset merge and gid rebasing", J+"tiled_map.py:parse, "+X+"tiled_map.py:parse"), ("template loading", "util.py:load_object_template")],
  [("tilesets", "first id -> tileset table grown while templates are resolved", "tiled_map.py:TiledMap.tilesets"), ("new_tileset", "tileset still to be merged for an object", "tiled_object.py:Tile")])

p("P06", "A template instance is its template plus the instance's overrides",
  """An object placed from a template equals the template's object with every attribute, shape and text written on the instance replacing the template's, and with the custom
  properties of both merged by name, the instance's value winning. Its id and position are the instance's own, attributes neither writes have their defaults, and other instances of the same template are unaffected.""",
  ["inputs", "histories"], "all template/instance pairs over which attributes each writes, all sequences of instances of one template, both formats",
  "One fixture per format whose instances override nothing but position and whose templates have no properties.",
  [J+"tiled_object.py", X+"tiled_object.py", "util.py"],
  [("merging of template and instance", J+"tiled_object.py:parse, "+X+"tiled_object.py:parse")])

p("P07", "Objects keep their kind, geometry and text",
  """Every object loads as the kind the document gives it (rectangle, ellipse, point, polygon, polyline, text or tile), with its position, size and rotation, its points
  in order and exact (including negative and fractional values), and every text setting it writes. Width and height are independent of each other, and what is not written has its documented default.""",
  ["inputs"], "all objects over kind, geometry values, point lists, text settings and which of them are written, in map layers and in tile collision shapes, both formats",
  "Object tests parse one hand-written sample per kind with fixed attribute sets.",
  [J+"tiled_object.py", X+"tiled_object.py", "tiled_object.py"],
  [("kind dispatch", J+"tiled_object.py:_get_parser, "+X+"tiled_object.py:_get_parser"), ("common attributes", J+"tiled_object.py:_parse_common, "+X+"tiled_object.py:_parse_common")])

p("P08", "Custom properties: none lost, invented, renamed or mistyped",
  """Every element that carries custom properties (map, every layer type, object, tileset, tile, wang set, wang color) reports exactly the names written on that element, each with its written
  value in the type the document declares: text (also multi-line), number, boolean, file path, color, or object reference as a number. A property of a kind that is not supported (class) never disturbs the other properties.""",
  ["inputs"], "all lists of properties over types, values (falsy and multi-line included) and carriers, both formats",
  "Fixtures put one property of each type on a map and a tileset; other carriers get one string; falsy, empty, multi-line and object values are absent.",
  [J+"properties.py", X+"properties.py", "properties.py"],
  [("value conversion by declared type", J+"properties.py:parse, "+X+"properties.py:parse"), ("carrier lookups of a properties element", X+"layer.py, "+X+"tiled_object.py, "+X+"tileset.py, "+X+"wang_set.py, "+X+"tiled_map.py")],
  observe=("pytiled_parser.parse_map", "pytiled_parser.parse_tileset"))

p("P09", "Colors decode exactly from Tiled's notation on every carrier",
  """Every color in a document (map and tileset background, layer tint, transparent color, text color, wang color, color property) written as RRGGBB or AARRGGBB hex digits of either case,
  with or without a leading #, is reported as its exact red, green, blue and alpha values, alpha being 255 when it is not written. A #-prefixed color of any other number of digits is rejected with an error.""",
  ["inputs"], "all 8-bit channel values in both notations, on every carrier, both formats",
  "Three unit tests with #ff0000 and one bad string; alpha values and channel order are covered by one property.",
  ["util.py", J+"tileset.py", X+"tileset.py", J+"layer.py", X+"layer.py", J+"wang_set.py", X+"wang_set.py"],
  [("color parser", "util.py:parse_color"), ("transparent color prefixing", X+"tileset.py:parse")],
  observe=("pytiled_parser.parse_map", "pytiled_parser.parse_tileset"))

p("P10", "Optional attributes are independent and default as documented",
  """Each attribute of a map, a layer or a tileset that the document writes is reported with exactly the written value, including zero, false and empty values, and each one that is not written has its documented
  default. Whether an attribute is written never changes the value reported for another attribute.""",
  ["inputs", "configurations"], "all subsets of optional attributes being present and all their values, for the map, each layer type and tilesets, both formats",
  "Fixtures fix a handful of attribute combinations; the presence lattice and falsy values are not explored.",
  [J+"tiled_map.py", X+"tiled_map.py", J+"layer.py", X+"layer.py", J+"tileset.py", X+"tileset.py", "layer.py", "tiled_map.py", "tileset.py"],
  [("per-attribute presence tests", J+"layer.py:_parse_common, "+X+"layer.py:_parse_common"), ("map header", J+"tiled_map.py:parse, "+X+"tiled_map.py:parse"), ("tileset header", J+"tileset.py:parse, "+X+"tileset.py:parse")],
  observe=("pytiled_parser.parse_map", "pytiled_parser.parse_tileset"))

p("P11", "The tileset table is the document's, however tilesets are stored",
  """The loaded map's tileset table has exactly one entry per tileset of the document, in the document's order, keyed by its first global id, which the tileset also reports, and holding that tileset's content. The content is the same
  whether the tileset is embedded in the map or stored in an external TSX or JSON file, and the same as loading that tileset file by itself, except for how image paths are expressed and for the first id.""",
  ["inputs", "configurations"], "all lists of tilesets, over storage (embedded, TSX, JSON), directories, order and first ids, both map formats",
  "Fixtures have at most two tilesets, mostly external in the same format; equality across storages is never checked.",
  [J+"tiled_map.py", X+"tiled_map.py", J+"tileset.py", X+"tileset.py", "parser.py"],
  [("tileset loading loop", J+"tiled_map.py:parse, "+X+"tiled_map.py:parse"), ("stand-alone loading", "parser.py:parse_tileset")],
  observe=("pytiled_parser.parse_map", "pytiled_parser.parse_tileset"))

p("P12", "Per-tile data stays with its tile id",
  """A tileset's tiles are reported under exactly the local ids the document lists and in its order, each with only its own class, image and image size, sub-rectangle (its size defaulting to the image size), animation frames in
  order with their durations, and collision objects. No tile takes data from another tile.""",
  ["inputs"], "all sets of tile entries over ids (sparse, unordered), present parts and values, in embedded and external tilesets, both formats",
  "One fixture of five tiles with consecutive ids and a single animation of equal durations.",
  [J+"tileset.py", X+"tileset.py", "tileset.py"],
  [("tile parsing", J+"tileset.py:_parse_tile, "+X+"tileset.py:_parse_tile"), ("tile table", J+"tileset.py:parse, "+X+"tileset.py:parse")],
  observe=("pytiled_parser.parse_map", "pytiled_parser.parse_tileset"))

p("P13", "Wang sets are loaded completely and in order",
  """Every wang set of a tileset is reported in document order with its name, class, type, representative tile, custom properties, its colors in order (name, class, color, probability, tile, properties) and its
  wang tiles keyed by tile id in document order, each with the eight indices of its wang id in document order.""",
  ["inputs"], "all lists of wang sets, colors and wang tiles, both tileset formats",
  "One fixture with two nearly identical sets, integer probabilities, no classes.",
  [J+"wang_set.py", X+"wang_set.py", "wang_set.py"],
  [("wang set parsing", J+"wang_set.py:parse, "+X+"wang_set.py:parse")],
  observe=("pytiled_parser.parse_map", "pytiled_parser.parse_tileset"))

p("P14", "Image paths resolve against the file that names them",
  """An image named by an external tileset, whether the map or a template refers to it, is reported as the absolute path obtained by resolving the written path against the directory of that tileset file,
  whatever the current directory, the map's own directory or the way the map's path was given. Images of embedded tilesets and image layers, and file properties, are reported as the relative path written.""",
  ["inputs", "configurations"], "all directory layouts (any .. and . segments), tileset storages, current directories and relative or absolute map paths, both formats",
  "Fixtures use one layout and always an absolute map path from one working directory.",
  [J+"tileset.py", X+"tileset.py", J+"tiled_map.py", X+"tiled_map.py", "util.py"],
  [("external_path joining", J+"tileset.py:parse/_parse_tile, "+X+"tileset.py:parse/_parse_tile"), ("template tileset directory", "util.py:load_object_template")])

p("P15", "A world lists exactly its maps with their places",
  """Loading a world lists every explicitly named map, in the order written, with its written size and position and then, for every pattern, each regular file in the world's directory (links to files included) whose name the pattern matches, placed at captured number times multiplier plus
  offset on each axis and sized by the multipliers; nothing else is listed. Map paths are in the world's own directory, offsets default to zero, maps are not opened, and the adjacent-maps flag is false unless written true.""",
  ["inputs", "configurations"], "all worlds over explicit maps, patterns and directory contents",
  "Three fixtures with two maps each and zero offsets, equal multipliers; directories, near-miss names and several patterns are not covered.",
  ["world.py"], [("explicit maps and pattern scan", "world.py:parse_world")], observe=("pytiled_parser.parse_world",))

p("P16", "Format is decided by content; anything else gets its documented error",
  """Map, tileset and template files are recognised as XML or JSON by their content (the first non-blank character), never by their name. A map or tileset file that is neither, and an external tileset that is neither, is rejected with
  UnknownFormat in maps of both formats; a template of the other format than its map is rejected with NotImplementedError; an unknown layer type in a JSON map is rejected with RuntimeError.""",
  ["inputs", "configurations"], "all combinations of file names, leading blank space, content classes and roles of the file",
  "Three tests with one garbage map, one garbage tileset in a JSON map, and one template mismatch per format.",
  ["util.py", "parser.py", J+"tiled_map.py", X+"tiled_map.py", J+"tiled_object.py", X+"tiled_object.py", "exception.py"],
  [("content sniffing", "util.py:check_format"), ("error mapping", "parser.py:parse_map/parse_tileset")],
  observe=("pytiled_parser.parse_map", "pytiled_parser.parse_tileset"))

p("P17", "What a load returns depends only on the files' current content",
  """Loading a file returns a result determined by the present content of it and the files it refers to: earlier loads, changes a caller made to earlier results, the current directory, the set-up of the interpreter and loads running in other threads have no influence,
  and a rewritten file is seen at once. Results share no mutable state with one another or among the objects inside one result, so changing one never changes another.""",
  ["histories", "schedules"], "all sequences of loads, caller mutations, file rewrites and directory changes, and concurrent loads",
  "Each test loads a file once in a fresh state; no test loads twice, mutates a result, or rewrites a file.",
  ["parser.py", "tiled_object.py", "util.py", J+"tiled_object.py", X+"tiled_object.py", J+"tiled_map.py", X+"tiled_map.py"],
  [("no module-level state; per-instance defaults", "tiled_object.py:TiledObject.properties")],
  observe=("pytiled_parser.parse_map", "pytiled_parser.parse_tileset", "pytiled_parser.parse_world"))

p("P18", "Loading only reads the files the document refers to, silently",
  """Loading opens, for reading only, the given file and the tilesets and templates reachable from it by reference, and nothing else: images, the maps of a world and unreferenced neighbours are never opened. It writes, creates, renames or removes nothing,
  starts no process, opens no connection, and prints nothing.""",
  ["inputs", "histories"], "all documents and reference graphs",
  "Tests look at return values only; no test observes file access or output.",
  ["parser.py", "util.py", "world.py", J+"tiled_map.py", X+"tiled_map.py"],
  [("file opening", "util.py, parser.py, world.py, "+J+"tiled_map.py, "+X+"tiled_map.py")],
  observe=("interpreter audit events (open, os.*, subprocess, socket)", "stdout/stderr"))

p("P19", "Text survives verbatim in both formats and under any locale",
  """Names, classes, text-object contents and string properties are reported character for character as the document means them: any Unicode text, XML character and entity references, JSON escapes, quotes, leading and trailing
  blanks and line breaks included. Files are read as UTF-8 whatever the locale of the process.""",
  ["inputs", "configurations"], "all Unicode strings allowed by the formats, all ways of escaping them, all locales",
  "Fixtures are pure ASCII and run under one UTF-8 locale.",
  ["util.py", "parser.py", "world.py", J+"tiled_map.py", X+"tiled_map.py", X+"tiled_object.py", X+"properties.py"],
  [("file decoding", "util.py, parser.py, world.py, "+J+"tiled_map.py, "+X+"tiled_map.py"), ("text element content", X+"tiled_object.py:_parse_text")],
  observe=("pytiled_parser.parse_map", "pytiled_parser.parse_tileset", "pytiled_parser.parse_world"))

p("P20", "Older JSON spellings load as the same model as current ones",
  """A JSON map or tileset in an older spelling loads as the same map as its current spelling: custom properties as a name-to-value object, tiles as an object keyed by tile id, a numeric format version (reported as text), object and tile
  classes named type, and missing infinite flag, next layer id, Tiled version or column count. Where both class and type are written, class wins.""",
  ["inputs"], "all documents and all subsets of older spellings",
  "No fixture uses an older spelling (the code marks those branches as excluded from coverage).",
  [J+"tileset.py", J+"properties.py", J+"tiled_map.py", J+"tiled_object.py"],
  [("legacy branches", J+"tileset.py:parse, "+J+"properties.py:parse, "+J+"tiled_map.py:parse")],
  observe=("pytiled_parser.parse_map", "pytiled_parser.parse_tileset"))

p("P21", "A file cut short is rejected, never half-loaded",
  """If the map file, or any external tileset or template it uses, or a tileset or world file loaded directly, has been cut off at any point before the end of its document (including to nothing), loading raises an
  error and returns no result; for a map or tileset file in JSON that error is UnknownFormat. Compressed tile data cut short is rejected as well.""",
  ["crash_points", "inputs"], "all byte positions at which a save can have been interrupted, in every file of a load, both formats",
  "No test loads a truncated file.",
  ["parser.py", "util.py", "world.py", J+"tiled_map.py", X+"tiled_map.py", J+"layer.py", X+"layer.py"],
  [("whole-document parsing and error mapping", "parser.py, util.py"), ("decompression", J+"layer.py:_decode_tile_layer_data, "+X+"layer.py:_decode_tile_layer_data")],
  observe=("pytiled_parser.parse_map", "pytiled_parser.parse_tileset", "pytiled_parser.parse_world"))

p("P22", "Content the library does not know is ignored",
  """Attributes, elements and JSON keys that the library does not know (editor settings, export settings, locked flags, blend modes, tile probabilities, XML comments and processing instructions, keys of newer Tiled versions), added anywhere in a map, tileset,
  template or world, do not make loading fail and do not change anything it reports. Neither do XML attribute order, JSON key order and white space between elements or tokens.""",
  ["inputs"], "all documents, all places, all unknown names, all orders of attributes and keys",
  "Fixtures contain two or three ignored attributes in fixed places.",
  [J+"tiled_map.py", X+"tiled_map.py", J+"layer.py", X+"layer.py", J+"tiled_object.py", X+"tiled_object.py", J+"tileset.py", X+"tileset.py", "world.py"],
  [("lookup by name only", J+"*.py, "+X+"*.py")],
  observe=("pytiled_parser.parse_map", "pytiled_parser.parse_tileset", "pytiled_parser.parse_world"))

p("P23", "Every reported value has its documented type",
  """Every field of every object a load returns has the type the API documents for it, in both formats: ids, counts, pixel sizes of tiles and images, tile ids, durations and wang indices are integers, flags are booleans, measures are numbers, names and
  classes are text, image and map files are paths, colors, positions and sizes are the library's own types, and only fields documented as optional may be None.""",
  ["inputs"], "all documents, all fields, both formats",
  "Tests compare with ==, for which 1, 1.0 and True are equal and a plain tuple equals a Color, Size or OrderedPair.",
  ["common_types.py", "layer.py", "tiled_map.py", "tiled_object.py", "tileset.py", "wang_set.py", "world.py", X+"tiled_map.py", X+"layer.py", X+"tileset.py", X+"tiled_object.py", X+"wang_set.py"],
  [("text to value conversion", X+"*.py"), ("declared attrs fields", "layer.py, tiled_map.py, tiled_object.py, tileset.py, wang_set.py, world.py")],
  observe=("pytiled_parser.parse_map", "pytiled_parser.parse_tileset", "pytiled_parser.parse_world"))

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
