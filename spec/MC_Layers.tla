------------------------------ MODULE MC_Layers ------------------------------
(***************************************************************************)
(* P02.  Reading a layer forest.  The document is a stream of events: a    *)
(* leaf layer, the start or the end of a group, and (for an embedded       *)
(* tileset) the start of a tile's collision shapes, which look like an     *)
(* object layer but are none.  The reader keeps a stack of open lists, as  *)
(* the recursive parsers do.  hist records the layers of the stream with   *)
(* their depth.                                                            *)
(***************************************************************************)
EXTENDS Build
CONSTANT N                   \* most layers in a document

VARIABLES stack, hist, colls
vars == <<stack, hist, colls>>

Leafs == {"tile", "object", "image"}
Depth == Len(stack) - 1
Count == Len(hist)
Name == "s:L" \o ToString(Count + 1)

LeafDoc(k) ==
  CASE k = "tile" -> TileL(Name, 1, 1, << <<0, Count + 1>> >>)
    [] k = "object" -> ObjL(Name, <<ObjAt(Count + 1)>>)
    [] k = "image" -> ImgL(Name, <<"i.png">>)

Push(l) == [stack EXCEPT ![Len(stack)] = Append(@, l)]

Init == stack = << <<>> >> /\ hist = <<>> /\ colls = 0

Leaf(k) == /\ Count < N
           /\ stack' = Push(LeafDoc(k))
           /\ hist' = Append(hist, [depth |-> Depth, kind |-> k, name |-> Name])
           /\ UNCHANGED colls
Open == /\ Count < N
        /\ stack' = Append(Push(GrpL(Name, <<>>)), <<>>)
        /\ hist' = Append(hist, [depth |-> Depth, kind |-> "group", name |-> Name])
        /\ UNCHANGED colls
Close == /\ Len(stack) > 1
         /\ LET inner == stack[Len(stack)]
                rest == SubSeq(stack, 1, Len(stack) - 1)
                outer == rest[Len(rest)]
            IN stack' = [rest EXCEPT ![Len(rest)] = [outer EXCEPT ![Len(outer)].children = inner]]
         /\ UNCHANGED <<hist, colls>>
(* shapes of a tile of an embedded tileset, which comes before the layers *)
Collision == /\ Count = 0 /\ colls < 2
             /\ colls' = colls + 1
             /\ UNCHANGED <<stack, hist>>

Next == (\E k \in Leafs : Leaf(k)) \/ Open \/ Close \/ Collision
Spec == Init /\ [][Next]_vars

Done == Len(stack) = 1
Flatten(ls) == LET p == Preorder(ls, 0)
               IN [i \in DOMAIN p |-> [depth |-> p[i].depth, kind |-> p[i].layer.kind, name |-> p[i].layer.attrs.name]]

(* every layer once, at its place, in order, with its type *)
Mirrors == Done => Flatten(stack[1]) = hist
(* what has been read is never reordered, moved or dropped *)
Grows == [][IsPrefix(hist, hist')]_vars

CollTiles == [i \in 1..colls |-> [Tile0 EXCEPT !.id = i - 1, !.objects = <<ObjL("s:coll", <<ObjAt(i)>>)>>]]
DocOf(fmt) == LET m == [MapOf(stack[1]) EXCEPT !.tsrefs = IF colls = 0 THEN <<>> ELSE <<Embedded(1, "t")>>]
              IN Scenario(fmt, m, R1("t", [Ts0 EXCEPT !.tiles = CollTiles]), NoAttrs)
Export == Done => EmitBoth(DocOf)
=============================================================================
