------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* P16, P21.  How a load ends when one file of it is not what it should    *)
(* be.  A case c is                                                        *)
(*   role     "map", "tileset", "world": the file the caller names;        *)
(*            "exttileset", "template", "tpltileset": one it refers to     *)
(*   mapfmt   format of the map (or of the file itself)                    *)
(*   content  "xml", "json"  a whole document of that format               *)
(*            "torn-xml", "torn-json"  one cut short                       *)
(*            "text", "blank", "empty", "binary"  neither format           *)
(*            "angle"  no XML, but starting like it                        *)
(*            "torn-data"  a whole document with compressed data cut short *)
(*            "layer-type"  a JSON map with an unknown layer type          *)
(* FileWant(c) is the set of errors it may end with; {} means it loads.    *)
(***************************************************************************)
EXTENDS Clauses

TilesetRoles == {"tileset", "exttileset", "tpltileset"}
FmtOf(content) == IF content \in {"xml", "torn-xml", "angle"} THEN "tmx" ELSE "json"
Whole(content) == content \in {"xml", "json"}

FileWant(c) ==
  CASE c.content = "torn-data" -> {"any"}
    [] c.content = "layer-type" -> {"RuntimeError"}
    [] c.role = "world" -> IF c.content = "json" THEN {} ELSE {"any"}
    [] c.role = "template" -> IF Whole(c.content)
                              THEN IF FmtOf(c.content) = c.mapfmt THEN {} ELSE {"NotImplementedError"}
                              ELSE {"any"}
    [] OTHER -> CASE Whole(c.content) -> {}
                  [] c.content \in {"torn-xml", "angle"} -> {"any"}
                  [] OTHER -> {"UnknownFormat"}

FileDiffs(c, obs) ==
  LET want == FileWant(c)
      what == c.role \o " " \o c.content \o " (" \o c.mapfmt \o ")"
  IN IF obs.out = "ok"
     THEN IF want = {} THEN {} ELSE {D("outcome", "accepted", what, ToString(want), "loaded")}
     ELSE IF want = {} THEN {D("outcome", "rejected", what, "loads", obs.err)}
     ELSE IF "any" \in want \/ obs.err \in want THEN {}
     ELSE {D("outcome", "error", what, ToString(want), obs.err)}
=============================================================================
