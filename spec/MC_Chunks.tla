------------------------------ MODULE MC_Chunks ------------------------------
(***************************************************************************)
(* P04.  Reading the chunks of an infinite layer.  The reader takes one    *)
(* chunk after the other; within a chunk it takes one cell after the       *)
(* other and starts a new row whenever the chunk's own width is reached.   *)
(* The layer's own size plays no part.                                     *)
(***************************************************************************)
EXTENDS Build
CONSTANTS N, Sizes, Places

VARIABLES doc,               \* the chunks of the document so far
          out,               \* the chunks reported so far
          open               \* <<>> or <<[x, y, w, h, rows, n]>>: the chunk being read
vars == <<doc, out, open>>

(* cells are numbered through the document, so each shows where it belongs *)
RECURSIVE CellsBefore(_)
CellsBefore(cs) == IF cs = <<>> THEN 0 ELSE Len(Head(cs).cells) + CellsBefore(Tail(cs))
MkCells(base, n) == [i \in 1..n |-> <<(base + i) % 16, base + i>>]

Init == doc = <<>> /\ out = <<>> /\ open = <<>>
Begin(sz, pl) == /\ open = <<>> /\ Len(doc) < N
                 /\ doc' = Append(doc, [x |-> pl[1], y |-> pl[2], w |-> sz[1], h |-> sz[2],
                                        cells |-> MkCells(CellsBefore(doc), sz[1] * sz[2])])
                 /\ open' = << [x |-> pl[1], y |-> pl[2], w |-> sz[1], h |-> sz[2], rows |-> << <<>> >>, n |-> 0] >>
                 /\ UNCHANGED out
Take == /\ open # <<>>
        /\ LET o == open[1]
               c == doc[Len(doc)].cells[o.n + 1]
               r == [o.rows EXCEPT ![Len(o.rows)] = Append(@, c)]
               n == o.n + 1
               full == n = o.w * o.h
               rr == IF ~full /\ n % o.w = 0 THEN Append(r, <<>>) ELSE r
           IN IF full
              THEN /\ out' = Append(out, [x |-> o.x, y |-> o.y, w |-> o.w, h |-> o.h, data |-> rr])
                   /\ open' = <<>>
              ELSE /\ open' = << [o EXCEPT !.rows = rr, !.n = n] >>
                   /\ UNCHANGED out
        /\ UNCHANGED doc
Next == Take \/ \E sz \in Sizes, pl \in Places : Begin(sz, pl)
Spec == Init /\ [][Next]_vars

Done == open = <<>>
AllKept == Done => out = [i \in DOMAIN doc |-> ChunkRes(doc[i])]
InOrder == [][IsPrefix(out, out')]_vars

Doc == Scenario("tmx", [MapOf(<< [TileL("s:L", 3, 2, <<>>) EXCEPT !.chunks = <<doc>>] >>)
                        EXCEPT !.attrs.infinite = "b:true"], NoAttrs, NoAttrs)
Export == Done => Emit(Doc)

QSizes == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2>>}
QPlaces == {<<0, 0>>, <<-16, 32>>}
DPlaces == {<<0, 0>>, <<-16, 32>>, <<16, -1>>}
=============================================================================
