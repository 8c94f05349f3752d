----------------------------- MODULE MC_Optional ------------------------------
(***************************************************************************)
(* P10.  Optional attributes of maps, layers and tilesets.  From a         *)
(* document with none of them, attributes are added one by one; from one   *)
(* with all of them, they are dropped one by one.  Each step changes the   *)
(* reported field of that attribute and no other.                          *)
(***************************************************************************)
EXTENDS Build
CONSTANTS Steps,             \* most additions or removals
          Modes              \* "low": empty, zero, false; "high": not the default

MapKeys == {"infinite", "nextlayerid", "tiledversion", "backgroundcolor", "hexsidelength", "staggeraxis", "staggerindex", "class",
            "parallaxoriginx", "parallaxoriginy"}
LayerKeys == {"id", "opacity", "visible", "offsetx", "offsety", "parallaxx", "parallaxy", "tintcolor", "class", "repeatx", "repeaty"}
SetKeys == {"columns", "spacing", "margin", "tilerendersize", "fillmode", "tiledversion", "version", "class", "objectalignment",
            "backgroundcolor", "transparentcolor", "tileoffset", "grid", "transformations"}
Parts == {"map", "tile", "object", "image", "group", "set"}
Keys(p) == CASE p = "map" -> MapKeys [] p = "set" -> SetKeys
             [] p = "object" -> LayerKeys \cup {"draworder"}
             [] p = "image" -> LayerKeys \cup {"transparentcolor"}
             [] OTHER -> LayerKeys
Color(m) == [hex |-> IF m = "low" THEN <<0, 0, 0, 0, 0, 0, 0, 0>> ELSE <<9, 1, 10, 2, 15, 3>>, hash |-> TRUE]
Val(m, k) ==
  LET l == m = "low" IN
  CASE k \in {"backgroundcolor", "tintcolor", "transparentcolor"} -> Color(m)
    [] k = "infinite" -> "b:false"
    [] k = "visible" -> IF l THEN "b:true" ELSE "b:false"
    [] k \in {"repeatx", "repeaty"} -> IF l THEN "b:false" ELSE "b:true"
    [] k = "nextlayerid" -> IF l THEN "n:0" ELSE "n:12"
    [] k = "tiledversion" -> IF l THEN "s:" ELSE "s:1.10.2"
    [] k = "version" -> IF l THEN "s:1.2" ELSE "s:1.10"
    [] k = "hexsidelength" -> IF l THEN "n:0" ELSE "n:6"
    [] k = "staggeraxis" -> IF l THEN "s:x" ELSE "s:y"
    [] k = "staggerindex" -> IF l THEN "s:odd" ELSE "s:even"
    [] k = "class" -> IF l THEN "s:" ELSE "s:C%20c"
    [] k = "parallaxoriginx" -> IF l THEN "n:0" ELSE "n:3.5"
    [] k = "parallaxoriginy" -> IF l THEN "n:0" ELSE "n:-7"
    [] k = "id" -> IF l THEN "n:0" ELSE "n:41"
    [] k = "opacity" -> IF l THEN "n:0" ELSE "n:0.25"
    [] k = "offsetx" -> IF l THEN "n:0" ELSE "n:5.5"
    [] k = "offsety" -> IF l THEN "n:0" ELSE "n:-6"
    [] k = "parallaxx" -> IF l THEN "n:0" ELSE "n:0.5"
    [] k = "parallaxy" -> IF l THEN "n:0" ELSE "n:-2"
    [] k = "draworder" -> IF l THEN "s:topdown" ELSE "s:index"
    [] k = "columns" -> IF l THEN "n:0" ELSE "n:3"
    [] k = "spacing" -> IF l THEN "n:0" ELSE "n:2"
    [] k = "margin" -> IF l THEN "n:0" ELSE "n:4"
    [] k = "tilerendersize" -> IF l THEN "s:tile" ELSE "s:grid"
    [] k = "fillmode" -> IF l THEN "s:stretch" ELSE "s:preserve-aspect-fit"
    [] k = "objectalignment" -> IF l THEN "s:unspecified" ELSE "s:bottomright"
SubParts == {"tileoffset", "grid", "transformations"}

VARIABLES part, mode, dir, K, left
vars == <<part, mode, dir, K, left>>
Init == /\ part \in Parts /\ mode \in Modes /\ dir \in {"add", "drop"} /\ left = Steps
        /\ K = IF dir = "add" THEN {} ELSE Keys(part)
Add(k) == dir = "add" /\ K' = K \cup {k}
Drop(k) == dir = "drop" /\ K' = K \ {k}
Next == /\ left > 0 /\ left' = left - 1
        /\ \E k \in Keys(part) : (k \notin K /\ Add(k)) \/ (k \in K /\ Drop(k))
        /\ UNCHANGED <<part, mode, dir>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Vals(ks) == [k \in ks \ SubParts |-> Val(mode, k)]
Required == {"width", "height", "tilewidth", "tileheight", "orientation", "renderorder", "version", "nextobjectid"}
MapA0 == [k \in Required |-> MapA[k]]
LayerOf(ks) ==
  LET l == CASE part = "tile" -> TileL("s:L", 2, 1, << <<0, 1>>, <<0, 2>> >>)
             [] part = "object" -> ObjL("s:L", <<ObjAt(1)>>)
             [] part = "image" -> ImgL("s:L", <<"i.png">>)
             [] part = "group" -> GrpL("s:L", <<ImgL("s:M", <<"j.png">>)>>)
  IN [l EXCEPT !.attrs = Vals(ks) @@ @]
SetOf(ks) ==
  LET low == mode = "low" IN
  [Ts0 EXCEPT !.attrs = Vals(ks) @@ [name |-> "s:set", tilewidth |-> "n:8", tileheight |-> "n:9"],
              !.tileoffset = IF "tileoffset" \notin ks THEN <<>>
                             ELSE << IF low THEN [x |-> "n:0", y |-> "n:0"] ELSE [x |-> "n:-3", y |-> "n:5"] >>,
              !.grid = IF "grid" \notin ks THEN <<>>
                       ELSE << [orientation |-> IF low THEN "s:orthogonal" ELSE "s:isometric", width |-> "n:4", height |-> "n:6"] >>,
              !.transformations = IF "transformations" \notin ks THEN <<>>
                       ELSE << [hflip |-> IF low THEN "b:false" ELSE "b:true", vflip |-> "b:false",
                                rotate |-> IF low THEN "b:false" ELSE "b:true", preferuntransformed |-> IF low THEN "b:true" ELSE "b:false"] >>]
MapDoc(ks) ==
  CASE part = "map" -> [MapOf(<<>>) EXCEPT !.attrs = Vals(ks) @@ MapA0]
    [] part = "set" -> [MapOf(<<>>) EXCEPT !.tsrefs = <<Embedded(1, "s")>>]
    [] OTHER -> MapOf(<<LayerOf(ks)>>)
DocFor(fmt, ks) == Scenario(fmt, MapDoc(ks), R1("s", SetOf(IF part = "set" THEN ks ELSE {})), NoAttrs)
DocOf(fmt) == DocFor(fmt, K)

(* all reported fields of the part *)
Fields(ks) ==
  LET s == DocFor("tmx", ks) IN
  CASE part = "map" -> MapAttrs(s)
    [] part = "set" -> TsAttrs(s.tilesets.s)
    [] OTHER -> LET r == LayerRes(s, s.map.layers[1]) IN [draworder |-> r.draworder, trans |-> r.trans] @@ r.attrs
FieldsOf(k) ==
  CASE k = "nextlayerid" -> {"next_layer_id"} [] k = "tiledversion" -> {"tiled_version"} [] k = "backgroundcolor" -> {"background"}
    [] k = "hexsidelength" -> {"hex_side_length"} [] k = "staggeraxis" -> {"stagger_axis"} [] k = "staggerindex" -> {"stagger_index"}
    [] k = "parallaxoriginx" -> {"origin_x"} [] k = "parallaxoriginy" -> {"origin_y"}
    [] k = "offsetx" -> {"off_x"} [] k = "offsety" -> {"off_y"} [] k = "parallaxx" -> {"par_x"} [] k = "parallaxy" -> {"par_y"}
    [] k = "tintcolor" -> {"tint"} [] k = "repeatx" -> {"repeat_x"} [] k = "repeaty" -> {"repeat_y"}
    [] k = "transparentcolor" -> IF part = "set" THEN {"transparent"} ELSE {"trans"}
    [] k = "tilerendersize" -> {"tile_render_size"} [] k = "fillmode" -> {"fill_mode"} [] k = "objectalignment" -> {"alignment"}
    [] k = "tileoffset" -> {"offset_x", "offset_y"} [] k = "grid" -> {"grid_orientation", "grid_width", "grid_height"}
    [] k = "transformations" -> {"hflip", "vflip", "rotate", "prefer"}
    [] OTHER -> {k}
Independent == [][LET a == Fields(K)
                      b == Fields(K')
                      moved == UNION {FieldsOf(k) : k \in (K' \ K) \cup (K \ K')}
                  IN \A f \in DOMAIN a : f \notin moved => a[f] = b[f]]_vars
(* a written value is the one reported, also when it is empty, zero or false *)
Written == \A k \in K \ SubParts : LET v == Val(mode, k)
                                       r == Fields(K)
                                   IN \A f \in FieldsOf(k) : r[f] = (IF k \in {"backgroundcolor", "tintcolor", "transparentcolor"} THEN ColorTok(v) ELSE v)
Export == EmitBoth(DocOf)
BothModes == {"low", "high"}
=============================================================================
