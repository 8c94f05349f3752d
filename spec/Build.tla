------------------------------- MODULE Build --------------------------------
(***************************************************************************)
(* Builders of scenarios for the bounded models, and the writer that hands *)
(* an explored scenario to the conformance harness (file OUT).             *)
(***************************************************************************)
EXTENDS Tiled, Json, IOUtils, CSV, SequencesExt, FiniteSetsExt

NoAttrs == << >>
R1(k, v) == (k :> v)

MapA == [ width |-> "n:4", height |-> "n:3", tilewidth |-> "n:16", tileheight |-> "n:8",
          orientation |-> "s:orthogonal", renderorder |-> "s:right-down", version |-> "s:1.10",
          nextobjectid |-> "n:9", nextlayerid |-> "n:5", tiledversion |-> "s:1.10.2", infinite |-> "b:false" ]

Layer0 == [ kind |-> "tile", attrs |-> NoAttrs, props |-> <<>>, w |-> 1, h |-> 1, cells |-> <<>>, chunks |-> <<>>,
            enc |-> "csv", comp |-> "", objects |-> <<>>, image |-> <<>>, children |-> <<>> ]
TileL(name, w, h, cells) == [Layer0 EXCEPT !.attrs = R1("name", name), !.w = w, !.h = h, !.cells = cells]
ObjL(name, os) == [Layer0 EXCEPT !.kind = "object", !.attrs = R1("name", name), !.w = 0, !.h = 0, !.objects = os]
ImgL(name, segs) == [Layer0 EXCEPT !.kind = "image", !.attrs = R1("name", name), !.w = 0, !.h = 0, !.image = segs]
GrpL(name, ls) == [Layer0 EXCEPT !.kind = "group", !.attrs = R1("name", name), !.w = 0, !.h = 0, !.children = ls]

Obj0 == [ attrs |-> [id |-> "n:1", x |-> "n:0", y |-> "n:0"], kind |-> "rectangle", points |-> <<>>, text |-> <<>>,
          gid |-> <<>>, props |-> <<>>, template |-> <<>> ]
ObjAt(i) == [Obj0 EXCEPT !.attrs = [id |-> Num(i), x |-> Num(10 * i), y |-> Num(i)]]

Ts0 == [ attrs |-> [name |-> "s:set", tilewidth |-> "n:16", tileheight |-> "n:16", columns |-> "n:2"], tilecount |-> 4,
         image |-> <<[segs |-> <<"t.png">>, w |-> "n:32", h |-> "n:32"]>>, tileoffset |-> <<>>, grid |-> <<>>,
         transformations |-> <<>>, props |-> <<>>, tiles |-> <<>>, wangsets |-> <<>> ]
Tile0 == [id |-> 0, attrs |-> NoAttrs, image |-> <<>>, animation |-> <<>>, objects |-> <<>>, props |-> <<>>]

Embedded(first, ts) == [first |-> first, ts |-> ts, how |-> "embedded", src |-> <<>>]
External(first, ts, how, src) == [first |-> first, ts |-> ts, how |-> how, src |-> src]

FileOf(fmt) == IF fmt = "tmx" THEN "map.tmx" ELSE "map.tmj"
Base == <<"p", "q", "r", "u", "v", "w", "m">>
Scenario(fmt, map, tilesets, templates) ==
  [ id |-> "", call |-> "map", fmt |-> fmt, mapdir |-> Base, file |-> FileOf(fmt), via |-> "abs",
    map |-> map, tilesets |-> tilesets, templates |-> templates, style |-> [seed |-> 1] ]
MapOf(layers) == [attrs |-> MapA, props |-> <<>>, tsrefs |-> <<>>, layers |-> layers]
SetScenario(fmt, ts) ==
  [ id |-> "", call |-> "tileset", fmt |-> fmt, mapdir |-> Base,
    file |-> IF fmt = "tmx" THEN "set.tsx" ELSE "set.tsj", via |-> "abs", entry |-> "t",
    tilesets |-> R1("t", ts), templates |-> NoAttrs, style |-> [seed |-> 1] ]

Formats == {"tmx", "json"}
Emit(s) == CSVWrite("%1$s", <<ToJson(s)>>, IOEnv.OUT)
EmitBoth(S(_)) == Emit(S("tmx")) /\ Emit(S("json"))

(* all sequences over S of length at most n *)
SeqUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
=============================================================================
