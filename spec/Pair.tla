-------------------------------- MODULE Pair --------------------------------
(***************************************************************************)
(* Two loads that must give the same result.  An observation is given flat *)
(* here, as a list of <<field, place, value>> triples; the two loads agree *)
(* when the triples that the property lets count are the same.             *)
(***************************************************************************)
EXTENDS Clauses

(* what may differ, by property *)
Free(P, f) ==
  CASE P = "P01" -> f \in {"map.file", "map.layer.start_x", "map.layer.start_y"}
    (* another storage of a tileset: image paths and the first id *)
    [] P = "P11" -> f \in {"tileset.firstgid", "tileset.image", "tileset.tiles.tile.image",
                            "map.tilesets.ts.image", "map.tilesets.ts.tiles.tile.image", "map.file"}
    [] OTHER -> FALSE

Counts(P, xs) == {xs[i] : i \in {j \in DOMAIN xs : ~Free(P, xs[j][1])}}

PairDiffs(P, valid, a, b) ==
  IF a.out # b.out THEN {D("outcome", "differs", "load", a.out \o " " \o a.err, b.out \o " " \o b.err)}
  ELSE IF a.out # "ok"
  THEN IF valid /\ P = "P01" THEN {D("outcome", "rejected", "load", "loads", a.err)} ELSE {}
  ELSE LET x == Counts(P, a.flat)
           y == Counts(P, b.flat)
       IN IF x = y THEN {}
          ELSE {D("pair", t[1], t[2], t[3], "-") : t \in x \ y} \cup {D("pair", t[1], t[2], "-", t[3]) : t \in y \ x}
=============================================================================
