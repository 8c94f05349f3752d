------------------------------- MODULE MC_Tiles -------------------------------
(***************************************************************************)
(* P12.  Reading the tile entries of a tileset.  The parts of an entry are *)
(* read one after the other into the current tile; the end of the entry    *)
(* files it under its id, and the next entry starts from nothing.          *)
(***************************************************************************)
EXTENDS Build
CONSTANTS N, Ids, Parts, FullFor     \* entries up to FullFor get every subset of parts

VARIABLES list,              \* entries written
          cur,               \* <<>> or <<entry being read>>
          parts,             \* parts it has got
          table              \* what is reported: id -> entry
vars == <<list, cur, parts, table>>

Base0(i) == [Tile0 EXCEPT !.id = i]
Part(t, p) ==
  LET i == t.id IN
  CASE p = "image" -> [t EXCEPT !.image = <<[segs |-> <<"t" \o ToString(i) \o ".png">>, w |-> Num(10 + i), h |-> Num(20 + i)]>>]
    [] p = "class" -> [t EXCEPT !.attrs = (("class") :> ("s:c" \o ToString(i))) @@ @]
    [] p = "noclass" -> [t EXCEPT !.attrs = (("class") :> "s:") @@ @]
    [] p = "rect" -> [t EXCEPT !.attrs = [x |-> Num(i), y |-> Num(i + 1), width |-> Num(i + 2), height |-> Num(i + 3)] @@ @]
    [] p = "origin" -> [t EXCEPT !.attrs = [x |-> Num(i + 4), y |-> "n:0"] @@ @]
    [] p = "width" -> [t EXCEPT !.attrs = [width |-> Num(i + 6)] @@ @]
    [] p = "height" -> [t EXCEPT !.attrs = [height |-> Num(i + 5)] @@ @]
    [] p = "props" -> [t EXCEPT !.props = << << [name |-> "p" \o ToString(i), type |-> "int", val |-> Num(i), hex |-> <<>>] >> >>]
    [] p = "anim" -> [t EXCEPT !.animation = << [k \in 1..(2 + (i % 2)) |-> [tileid |-> (7 * k + i) % 4, duration |-> 100 * k + i]] >>]
    [] p = "coll" -> [t EXCEPT !.objects = << ObjL("s:", << [ObjAt(i + 1) EXCEPT !.kind = "ellipse"], ObjAt(i + 2) >>) >>]
    [] p = "nocoll" -> [t EXCEPT !.objects = << ObjL("s:", <<>>) >>]
Clash(p, q) == {p, q} \subseteq {"class", "noclass"} \/ {p, q} \subseteq {"coll", "nocoll"}
               \/ ("rect" \in {p, q} /\ {p, q} \cap {"origin", "width", "height"} # {})
Rank == [p \in {"image", "class", "noclass", "rect", "origin", "width", "height", "props", "anim", "coll", "nocoll"} |->
  CASE p = "image" -> 1 [] p = "class" -> 2 [] p = "noclass" -> 3 [] p = "rect" -> 4 [] p = "origin" -> 5 [] p = "width" -> 6
    [] p = "height" -> 7 [] p = "props" -> 8 [] p = "anim" -> 9 [] p = "coll" -> 10 [] p = "nocoll" -> 11]

Used == {list[i].id : i \in DOMAIN list}
Init == list = <<>> /\ cur = <<>> /\ parts = {} /\ table = << >>
Begin(i) == /\ cur = <<>> /\ Len(list) < N /\ i \notin Used
            /\ cur' = <<Base0(i)>> /\ parts' = {} /\ UNCHANGED <<list, table>>
Take(p) == /\ cur # <<>>
           /\ \A q \in parts : ~Clash(p, q) /\ Rank[q] < Rank[p]
           /\ Len(list) < FullFor \/ Cardinality(parts) < 1
           /\ cur' = <<Part(cur[1], p)>> /\ parts' = parts \cup {p} /\ UNCHANGED <<list, table>>
End == /\ cur # <<>>
       /\ list' = Append(list, cur[1]) /\ table' = (cur[1].id :> cur[1]) @@ table
       /\ cur' = <<>> /\ parts' = {}
Next == (\E i \in Ids : Begin(i)) \/ (\E p \in Parts : Take(p)) \/ End
Spec == Init /\ [][Next]_vars

Set == [Ts0 EXCEPT !.tiles = list]
Keyed == DOMAIN table = Used
OwnData == \A i \in DOMAIN list : table[list[i].id] = list[i]
FromNothing == (cur # <<>> /\ parts = {}) => cur[1] = Base0(cur[1].id)
Filed == [][\A i \in DOMAIN table : i \in DOMAIN table' /\ table'[i] = table[i]]_vars
Doc == Scenario("tmx", [MapOf(<<>>) EXCEPT !.tsrefs = <<Embedded(1, "s")>>], R1("s", Set), NoAttrs)
Export == (cur = <<>> /\ list # <<>>) => Emit(Doc)
AllParts == {"image", "class", "noclass", "rect", "origin", "width", "height", "props", "anim", "coll", "nocoll"}
=============================================================================
