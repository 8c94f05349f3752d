------------------------------- MODULE MC_Paths -------------------------------
(***************************************************************************)
(* P14.  Finding an image.  From the map's directory the loader walks to   *)
(* the template (if one names the tileset), on to the tileset, and on to   *)
(* the image, one written segment at a time; the directory it started      *)
(* from, and the current directory, play no part.  Some directories are     *)
(* links to others: a walk that enters one goes on from where it points.    *)
(* An absolute path begins at the root.                                     *)
(***************************************************************************)
EXTENDS Build
CONSTANTS Segs, MaxSegs, Vias

VARIABLES role,              \* "map" or "template": who names the tileset
          via,               \* how the map's path is given
          how,               \* format of the tileset file
          leg,               \* 1: to the template, 2: to the tileset, 3: to the image
          here,              \* the directory the walk is in
          legs               \* the segments of each leg
vars == <<role, via, how, leg, here, legs>>

Init == /\ role \in {"map", "template"} /\ via \in Vias /\ how \in {"tmx", "json"}
        /\ leg = (IF role = "map" THEN 2 ELSE 1) /\ here = Base /\ legs = << <<>>, <<>>, <<>> >>
(* a link out of the map's directory, one back into it, one beside the first *)
Far == <<"p", "far", "off">>
TheLinks == << [at |-> Append(Base, "l"), to |-> Far], [at |-> Append(Far, "l"), to |-> Append(Base, "d")],
               [at |-> <<"p", "far", "l">>, to |-> <<"p", "q">>] >>
Step(d, x) == LET k == {j \in DOMAIN TheLinks : TheLinks[j].at = Append(d, x)}
              IN IF x = "." THEN d ELSE IF x = ".." THEN SubSeq(d, 1, Len(d) - 1)
                 ELSE IF k = {} THEN Append(d, x) ELSE TheLinks[CHOOSE j \in k : TRUE].to
Walk(x) == /\ leg < 3 /\ Len(legs[leg]) < MaxSegs
           /\ legs' = [legs EXCEPT ![leg] = Append(@, x)] /\ here' = Step(here, x)
           /\ UNCHANGED <<role, via, how, leg>>
(* a leg that begins at the root instead *)
Jump(to) == /\ leg < 3 /\ legs[leg] = <<>> /\ legs' = [legs EXCEPT ![leg] = <<"//">> \o to] /\ here' = to
            /\ UNCHANGED <<role, via, how, leg>>
Open == leg < 3 /\ leg' = leg + 1 /\ UNCHANGED <<role, via, how, here, legs>>
Next == Open \/ (\E x \in Segs : Walk(x)) \/ (\E to \in {Far, <<"abs", "a", "b", "c", "d">>} : Jump(to))
Spec == Init /\ [][Next]_vars

TplDir == Norm(TheLinks, Base, legs[1])
SetDir == Norm(TheLinks, TplDir, legs[2])
WalkedTo == here = (IF leg = 1 THEN TplDir ELSE SetDir)

(* one image for every path of up to two segments *)
ImgPaths == SetToSeq(SeqUpTo({".", "..", "d", "l", "e%20e"}, 2)) \o << <<"//">>, <<"//", "p", "far", "l">>, <<"//", "d", "..">> >>
Img(i) == [segs |-> ImgPaths[i] \o <<"i" \o ToString(i) \o ".png">>, w |-> "n:8", h |-> "n:8"]
ColSet == [Ts0 EXCEPT !.image = <<>>, !.tilecount = Len(ImgPaths),
                      !.tiles = [i \in DOMAIN ImgPaths |-> [Tile0 EXCEPT !.id = i - 1, !.image = <<Img(i)>>]]]
OneSet(i) == [Ts0 EXCEPT !.image = <<Img(i)>>, !.attrs = [name |-> "s:one", tilewidth |-> "n:8", tileheight |-> "n:8", columns |-> "n:1"]]
SetFile(n) == n \o (IF how = "tmx" THEN ".tsx" ELSE ".tsj")
TplFile(fmt, n) == n \o (IF fmt = "tmx" THEN ".tx" ELSE ".tj")
Pick == ((Len(legs[1]) * 7 + Len(legs[2]) * 5) % Len(ImgPaths)) + 1
FileProp == << << [name |-> "f", type |-> "file", val |-> "p:../x/y.txt", hex |-> <<>>] >> >>
TplOf(fmt, n, k) == [ fmt |-> fmt, object |-> [Obj0 EXCEPT !.attrs = [id |-> "n:1"], !.kind = "tile", !.gid = << <<0, k>> >>],
                      tileset |-> << [src |-> legs[2] \o <<SetFile(n)>>, how |-> how, ts |-> n] >> ]
InstOf(fmt, i, n) == [ObjAt(i) EXCEPT !.kind = "inherit", !.template = << [src |-> legs[1] \o <<TplFile(fmt, "t" \o n)>>, tpl |-> n] >>]
DocOf(fmt) ==
  LET emb == [first |-> 500, ts |-> "emb", how |-> "embedded", src |-> <<>>]
      m == [MapOf(<< [ImgL("s:I", Img(Pick).segs) EXCEPT !.props = FileProp],
                     ObjL("s:O", IF role = "map" THEN <<>> ELSE <<InstOf(fmt, 1, "c"), InstOf(fmt, 2, "o")>>) >>)
            EXCEPT !.tsrefs = IF role = "map"
                              THEN <<External(1, "c", how, legs[2] \o <<SetFile("c")>>), External(100, "o", how, legs[2] \o <<SetFile("o")>>), emb>>
                              ELSE <<emb>>]
      s == Scenario(fmt, m, [c |-> ColSet, o |-> OneSet(Pick), emb |-> OneSet((Pick % Len(ImgPaths)) + 1)],
                    IF role = "map" THEN NoAttrs ELSE [c |-> TplOf(fmt, "c", 3), o |-> TplOf(fmt, "o", 1)])
  IN [s EXCEPT !.via = via] @@ [links |-> TheLinks]
(* what is reported is where the walk ends *)
Reported ==
  (leg = 3) => LET s == DocOf("tmx")
                   ext == IF role = "map" THEN RefExt(s, s.map.tsrefs[1]) ELSE TplTsExt(s, s.map.layers[2].objects[1])
               IN \A i \in DOMAIN ImgPaths :
                    ImagePath(Img(i).segs, ext) = "p:$ROOT/" \o JoinP(Norm(TheLinks, here, Img(i).segs))
Export == (leg = 3) => EmitBoth(DocOf)
AllVias == {"abs", "rel", "relroot", "dots"}
=============================================================================
