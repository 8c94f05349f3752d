------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* P23.  The type of every reported field, as the classes of the API       *)
(* document it.  An observation lists <<field, type>> pairs; fields the    *)
(* API does not document are not judged.                                   *)
(***************************************************************************)
EXTENDS Clauses

IntT == {"int"}
Flag == {"bool"}
Meas == {"int", "float"}
Txt == {"str"}
Maybe(T) == T \cup {"None"}
PathT == {"Path"}
List == {"list"}
Map == {"dict"}
PropValue == {"str", "int", "float", "bool", "Path", "Color"}
Layers4 == {"TileLayer", "ObjectLayer", "ImageLayer", "LayerGroup"}
Shapes == {"Rectangle", "Ellipse", "Point", "Polygon", "Polyline", "Text", "Tile"}

(* fields of a custom property table *)
PropTab(c, opt) == (c \o ".properties" :> (IF opt THEN Maybe(Map) ELSE Map))
                   @@ (c \o ".properties.key" :> Txt) @@ (c \o ".properties.value" :> PropValue)
ColorTab(f) == [x \in {f \o ".red", f \o ".green", f \o ".blue", f \o ".alpha"} |-> IntT]
XY(f, T) == [x \in {f \o ".x", f \o ".y"} |-> T]
WH(f, T) == [x \in {f \o ".width", f \o ".height"} |-> T]
All(c, fs, T) == [x \in {c \o "." \o f : f \in fs} |-> T]

MapTab ==
  ("result" :> {"TiledMap", "Tileset", "World"}) @@
  All("TiledMap", {"map_file"}, PathT) @@ All("TiledMap", {"infinite"}, Flag) @@ All("TiledMap", {"layers"}, List) @@
  ("TiledMap.layers[]" :> Layers4) @@ All("TiledMap", {"map_size", "tile_size"}, {"Size"}) @@
  WH("TiledMap.map_size", IntT) @@ WH("TiledMap.tile_size", IntT) @@
  All("TiledMap", {"next_layer_id", "hex_side_length"}, Maybe(IntT)) @@ All("TiledMap", {"next_object_id"}, IntT) @@
  All("TiledMap", {"orientation", "render_order", "tiled_version", "version"}, Txt) @@
  All("TiledMap", {"class_", "stagger_axis", "stagger_index"}, Maybe(Txt)) @@
  ("TiledMap.tilesets" :> Map) @@ ("TiledMap.tilesets.key" :> IntT) @@ ("TiledMap.tilesets.value" :> {"Tileset"}) @@
  ("TiledMap.parallax_origin" :> {"OrderedPair"}) @@ XY("TiledMap.parallax_origin", Meas) @@
  ("TiledMap.background_color" :> Maybe({"Color"})) @@ ColorTab("TiledMap.background_color") @@ PropTab("TiledMap", TRUE)

LayerTab(c) ==
  All(c, {"name"}, Txt) @@ All(c, {"opacity"}, Meas) @@ All(c, {"visible", "repeat_x", "repeat_y"}, Flag) @@
  All(c, {"coordinates", "parallax_factor", "offset"}, {"OrderedPair"}) @@
  XY(c \o ".coordinates", Meas) @@ XY(c \o ".parallax_factor", Meas) @@ XY(c \o ".offset", Meas) @@
  All(c, {"id"}, Maybe(IntT)) @@ All(c, {"class_"}, Maybe(Txt)) @@ All(c, {"size"}, Maybe({"Size"})) @@
  WH(c \o ".size", IntT) @@ All(c, {"tint_color"}, Maybe({"Color"})) @@ ColorTab(c \o ".tint_color") @@ PropTab(c, TRUE)
LayersTab ==
  LayerTab("TileLayer") @@ LayerTab("ObjectLayer") @@ LayerTab("ImageLayer") @@ LayerTab("LayerGroup") @@
  ("TileLayer.chunks" :> Maybe(List)) @@ ("TileLayer.chunks[]" :> {"Chunk"}) @@
  ("TileLayer.data" :> Maybe(List)) @@ ("TileLayer.data[]" :> List) @@ ("TileLayer.data[][]" :> IntT) @@
  ("Chunk.coordinates" :> {"OrderedPair"}) @@ XY("Chunk.coordinates", IntT) @@ ("Chunk.size" :> {"Size"}) @@
  WH("Chunk.size", IntT) @@ ("Chunk.data" :> List) @@ ("Chunk.data[]" :> List) @@ ("Chunk.data[][]" :> IntT) @@
  ("ObjectLayer.tiled_objects" :> List) @@ ("ObjectLayer.tiled_objects[]" :> Shapes) @@
  ("ObjectLayer.draw_order" :> Maybe(Txt)) @@
  ("ImageLayer.image" :> PathT) @@ ("ImageLayer.transparent_color" :> Maybe({"Color"})) @@
  ColorTab("ImageLayer.transparent_color") @@
  ("LayerGroup.layers" :> Maybe(List)) @@ ("LayerGroup.layers[]" :> Layers4)

ObjTab(c) ==
  All(c, {"id"}, IntT) @@ All(c, {"coordinates"}, {"OrderedPair"}) @@ XY(c \o ".coordinates", Meas) @@
  All(c, {"size"}, {"Size"}) @@ WH(c \o ".size", Meas) @@ All(c, {"rotation"}, Meas) @@ All(c, {"visible"}, Flag) @@
  All(c, {"name", "class_"}, Txt) @@ PropTab(c, FALSE)
ObjsTab ==
  ObjTab("Rectangle") @@ ObjTab("Ellipse") @@ ObjTab("Point") @@ ObjTab("Polygon") @@ ObjTab("Polyline") @@
  ObjTab("Text") @@ ObjTab("TileObject") @@
  [x \in {"Polygon.points", "Polyline.points"} |-> List] @@
  [x \in {"Polygon.points[]", "Polyline.points[]"} |-> {"OrderedPair"}] @@
  XY("Polygon.points[]", Meas) @@ XY("Polyline.points[]", Meas) @@
  All("Text", {"text", "font_family", "horizontal_align", "vertical_align"}, Txt) @@ All("Text", {"font_size"}, Meas) @@
  All("Text", {"bold", "italic", "kerning", "strike_out", "underline", "wrap"}, Flag) @@
  ("Text.color" :> {"Color"}) @@ ColorTab("Text.color") @@ ("TileObject.gid" :> IntT)

SetTab ==
  All("Tileset", {"name", "type", "tile_render_size", "fill_mode"}, Txt) @@
  All("Tileset", {"tile_width", "tile_height", "tile_count", "columns", "firstgid", "spacing", "margin"}, IntT) @@
  All("Tileset", {"tiled_version", "version", "class_", "alignment"}, Maybe(Txt)) @@
  All("Tileset", {"image"}, Maybe(PathT)) @@ All("Tileset", {"image_width", "image_height"}, Maybe(IntT)) @@
  ("Tileset.transformations" :> Maybe({"Transformations"})) @@
  All("Transformations", {"hflip", "vflip", "rotate", "prefer_untransformed"}, Flag) @@
  All("Tileset", {"background_color", "transparent_color"}, Maybe({"Color"})) @@
  ColorTab("Tileset.background_color") @@ ColorTab("Tileset.transparent_color") @@
  ("Tileset.tile_offset" :> Maybe({"OrderedPair"})) @@ XY("Tileset.tile_offset", IntT) @@
  ("Tileset.grid" :> Maybe({"Grid"})) @@ ("Tileset.grid.orientation" :> Txt) @@ WH("Tileset.grid", IntT) @@
  PropTab("Tileset", TRUE) @@
  ("Tileset.tiles" :> Maybe(Map)) @@ ("Tileset.tiles.key" :> IntT) @@ ("Tileset.tiles.value" :> {"Tile"}) @@
  ("Tileset.wang_sets" :> Maybe(List)) @@ ("Tileset.wang_sets[]" :> {"WangSet"}) @@
  All("TilesetTile", {"id", "opacity", "x", "y", "width", "height"}, IntT) @@ All("TilesetTile", {"class_"}, Maybe(Txt)) @@
  ("TilesetTile.animation" :> Maybe(List)) @@ ("TilesetTile.animation[]" :> {"Frame"}) @@
  All("TilesetTile.animation[]", {"tile_id", "duration"}, IntT) @@
  ("TilesetTile.objects" :> Maybe({"ObjectLayer"})) @@ ("TilesetTile.image" :> Maybe(PathT)) @@
  All("TilesetTile", {"image_width", "image_height"}, Maybe(IntT)) @@ PropTab("TilesetTile", TRUE) @@
  ("TilesetTile.tileset" :> Maybe({"Tileset"})) @@
  All("TilesetTile", {"flipped_horizontally", "flipped_diagonally", "flipped_vertically"}, Flag) @@
  All("WangSet", {"name", "wang_type"}, Txt) @@ All("WangSet", {"tile"}, IntT) @@ All("WangSet", {"class_"}, Maybe(Txt)) @@
  ("WangSet.wang_tiles" :> Map) @@ ("WangSet.wang_tiles.key" :> IntT) @@ ("WangSet.wang_tiles.value" :> {"WangTile"}) @@
  ("WangSet.wang_colors" :> List) @@ ("WangSet.wang_colors[]" :> {"WangColor"}) @@ PropTab("WangSet", TRUE) @@
  ("WangTile.tile_id" :> IntT) @@ ("WangTile.wang_id" :> List) @@ ("WangTile.wang_id[]" :> IntT) @@
  ("WangColor.color" :> {"Color"}) @@ ColorTab("WangColor.color") @@ All("WangColor", {"name"}, Txt) @@
  All("WangColor", {"probability"}, Meas) @@ All("WangColor", {"tile"}, IntT) @@ All("WangColor", {"class_"}, Maybe(Txt)) @@
  PropTab("WangColor", TRUE)

WorldTab ==
  ("World.maps" :> List) @@ ("World.maps[]" :> {"WorldMap"}) @@ ("World.only_show_adjacent" :> Flag) @@
  ("WorldMap.map_file" :> PathT) @@ ("WorldMap.size" :> {"Size"}) @@ WH("WorldMap.size", Meas) @@
  ("WorldMap.coordinates" :> {"OrderedPair"}) @@ XY("WorldMap.coordinates", Meas)

Table23 == MapTab @@ LayersTab @@ ObjsTab @@ SetTab @@ WorldTab
(* color properties: every property table *)
Carriers == {"TiledMap", "TileLayer", "ObjectLayer", "ImageLayer", "LayerGroup", "Rectangle", "Ellipse", "Point", "Polygon",
             "Polyline", "Text", "TileObject", "Tileset", "TilesetTile", "WangSet", "WangColor"}
Channels == {c \o ".properties.value." \o ch : c \in Carriers, ch \in {"red", "green", "blue", "alpha"}}

TypeDiffs(obs) ==
  IF obs.out # "ok" THEN IF obs.out = "odd" THEN {D("outcome", "unreadable", "load", "a result", obs.err)} ELSE {}
  ELSE {D("type", obs.types[i][1], "load",
          ToString(IF obs.types[i][1] \in Channels THEN IntT ELSE Table23[obs.types[i][1]]), obs.types[i][2])
        : i \in {j \in DOMAIN obs.types :
                   LET f == obs.types[j][1]
                       t == obs.types[j][2]
                   IN \/ f \in Channels /\ t \notin IntT
                      \/ f \in DOMAIN Table23 /\ t \notin Table23[f]}}
=============================================================================
