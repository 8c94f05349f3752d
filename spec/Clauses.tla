------------------------------ MODULE Clauses -------------------------------
(***************************************************************************)
(* Which differences break which property.  A check of property P reports  *)
(* a difference d only when Breaks(P, d).                                  *)
(***************************************************************************)
EXTENDS Diff

Pre(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Typed(d, p) == Pre(d[4], p) \/ Pre(d[5], p)

ObjKinds == {"objcount", "objkind", "obj", "points", "text"}
Col(K) == K \cup {"col-" \o k : k \in K}
PropKinds == Col({"layerprops", "objprops"}) \cup {"mapprops", "tsprops", "tileprops", "wangprops"}
SetKinds == {"ts", "tileorder", "wangorder", "tsimage", "tsprops", "tiles", "tile", "tileimage", "anim", "tileprops", "wang", "wangcolor",
             "wangprops", "wangtiles"}
IsCol(k) == Pre(k, "col-")

Breaks(P, d) ==
  LET k == d[1] IN
  \/ k \in {"outcome", "pair"}
  \/ CASE P = "P01" -> TRUE
       [] P = "P02" -> k \in {"tree", "col-tree"} \/ (k = "layer" /\ d[2] \in {"name", "id"})
       [] P = "P03" -> k = "data"
       [] P = "P04" -> k \in {"chunks", "data"}
       [] P = "P05" -> k \in {"gid", "tplgid", "table", "extra", "firstgid"}
       [] P = "P06" -> k \in ObjKinds \cup {"objprops", "gid", "tplgid"}
       [] P = "P07" -> k \in Col(ObjKinds \cup {"gid"})
       [] P = "P08" -> k \in PropKinds
       [] P = "P09" -> Typed(d, "c:")
       [] P = "P10" -> k \in {"header", "layer", "ts", "col-layer"}
       [] P = "P11" -> k \in {"table", "tableorder", "extra", "firstgid"} \cup SetKinds \/ IsCol(k)
       [] P = "P12" -> k \in {"tileorder", "tiles", "tile", "tileimage", "anim", "tileprops"} \/ IsCol(k)
       [] P = "P13" -> k \in {"wangorder", "wang", "wangcolor", "wangprops", "wangtiles"}
       [] P = "P14" -> k \in {"tsimage", "tileimage", "file"} \/ Typed(d, "p:")
       [] P = "P19" -> Typed(d, "s:") \/ k \in PropKinds
       [] OTHER -> k \notin {"tileorder", "wangorder", "tableorder"}
=============================================================================
