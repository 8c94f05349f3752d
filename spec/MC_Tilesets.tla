----------------------------- MODULE MC_Tilesets ------------------------------
(***************************************************************************)
(* P11.  A map's tileset references are read one after the other (the same *)
(* tileset, even the same file, may be referred to again); each adds one   *)
(* entry under its first id, and the entry's content depends on the        *)
(* tileset only, not on where and how it is stored.                        *)
(***************************************************************************)
EXTENDS Build
CONSTANTS N, Hows, Places, Firsts

Pool == [ a |-> [Ts0 EXCEPT !.attrs = [name |-> "s:A", tilewidth |-> "n:16", tileheight |-> "n:17", columns |-> "n:2",
                                         spacing |-> "n:1", class |-> "s:ca"],
                            !.props = << << [name |-> "p", type |-> "bool", val |-> "b:false", hex |-> <<>>] >> >>],
          b |-> [Ts0 EXCEPT !.attrs = [name |-> "s:B", tilewidth |-> "n:8", tileheight |-> "n:9", version |-> "s:1.9",
                                         tiledversion |-> "s:1.9.1", columns |-> "n:0"],
                            !.image = <<>>, !.tilecount = 2,
                            !.tiles = << [Tile0 EXCEPT !.id = 5, !.image = <<[segs |-> <<"x", "5.png">>, w |-> "n:5", h |-> "n:6"]>>,
                                                       !.objects = << ObjL("s:", <<ObjAt(1)>>) >>],
                                         [Tile0 EXCEPT !.id = 1, !.image = <<[segs |-> <<"1.png">>, w |-> "n:1", h |-> "n:2"]>>] >>],
          c |-> [Ts0 EXCEPT !.attrs = [name |-> "s:A", tilewidth |-> "n:32", tileheight |-> "n:1", columns |-> "n:1",
                                         margin |-> "n:3", objectalignment |-> "s:top"],
                            !.tilecount = 3, !.tileoffset = << [x |-> "n:1", y |-> "n:0"] >>,
                            !.wangsets = << << [name |-> "s:w", attrs |-> NoAttrs, tile |-> "n:-1", type |-> "s:edge", props |-> <<>>,
                                               colors |-> <<>>, tiles |-> << [tileid |-> 1, wangid |-> <<0, 1, 0, 1, 0, 1, 0, 2>>] >>] >> >>] ]

VARIABLES refs, table, content
vars == <<refs, table, content>>
Init == refs = <<>> /\ table = << >> /\ content = << >>
(* what is told about the content of a set, apart from image places *)
Told(k, first) == LET t == TilesetRes([fmt |-> "tmx", templates |-> NoAttrs], Pool[k], first, <<>>)
                  IN [t EXCEPT !.firstgid = 0]
Read(k, how, place, first) ==
  /\ Len(refs) < N /\ first \notin DOMAIN table
  /\ refs' = Append(refs, [first |-> first, ts |-> k, how |-> how,
                           src |-> IF how = "embedded" THEN <<>>
                                   ELSE place \o <<k \o (IF how = "tmx" THEN ".tsx" ELSE ".tsj")>>])
  /\ table' = (first :> k) @@ table
  /\ content' = (k :> Told(k, first)) @@ content
Next == \E k \in DOMAIN Pool, how \in Hows, f \in Firsts :
          \E place \in (IF how = "embedded" THEN {<<>>} ELSE Places) : Read(k, how, place, f)
Spec == Init /\ [][Next]_vars

OneEach == Cardinality(DOMAIN table) = Len(refs)
Under == \A i \in DOMAIN refs : table[refs[i].first] = refs[i].ts
SameAnywhere == \A i \in DOMAIN refs : content[refs[i].ts] = Told(refs[i].ts, 1)
Stays == [][\A f \in DOMAIN table : table'[f] = table[f]]_vars
DocOf(fmt) == Scenario(fmt, [MapOf(<<ObjL("s:L", <<ObjAt(1)>>)>>) EXCEPT !.tsrefs = refs], Pool, NoAttrs)
Export == (refs # <<>>) => EmitBoth(DocOf)
AllHows == {"embedded", "tmx", "json"}
QPlaces == {<<"sets">>}
DPlaces == {<<>>, <<"..", "up">>}
QFirsts == {1, 7, 40}
DFirsts == {1, 40}
=============================================================================
