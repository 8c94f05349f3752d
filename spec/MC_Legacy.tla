------------------------------- MODULE MC_Legacy ------------------------------
(***************************************************************************)
(* P20.  A JSON document and its spelling.  The same content can be        *)
(* written as current Tiled writes it or as older versions did; Write says *)
(* what is put into the file, Read what that means.  From the current      *)
(* spelling, one construct after the other is changed to its older form,   *)
(* in any order; what the file means never changes.                        *)
(***************************************************************************)
EXTENDS Build
CONSTANT Docs

Old == {"props", "tiles", "version", "columns"}
ClassKeys == {"class", "type", "both"}
(* parts that older versions did not write; leaving one out means its default *)
Left == {"infinite", "nextlayerid", "tiledversion"}
Defaults == [infinite |-> "b:false", nextlayerid |-> None, tiledversion |-> "s:"]

VARIABLES old, key, left, doc
vars == <<old, key, left, doc>>
Init == old = {} /\ key = "class" /\ left = {} /\ doc \in Docs
Next == \/ \E f \in Old \ old : old' = old \cup {f} /\ UNCHANGED <<key, left, doc>>
        \/ key = "class" /\ key' \in ClassKeys \ {"class"} /\ UNCHANGED <<old, left, doc>>
        \/ \E k \in Left \ left : left' = left \cup {k} /\ UNCHANGED <<old, key, doc>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* The content: properties as a list, tile entries as a list, and so on.     *)
P1 == << [name |-> "n", type |-> "int", val |-> "n:0", hex |-> <<>>],
         [name |-> "s", type |-> "string", val |-> "s:", hex |-> <<>>],
         [name |-> "f", type |-> "float", val |-> "n:1.5", hex |-> <<>>],
         [name |-> "b", type |-> "bool", val |-> "b:false", hex |-> <<>>] >>
P2 == << [name |-> "type", type |-> "string", val |-> "s:x%20y", hex |-> <<>>],
         [name |-> "id", type |-> "int", val |-> "n:7", hex |-> <<>>] >>
PropLists == <<P1, P2, <<>> >>
PropsAt(d, i) == IF d = 3 THEN <<>> ELSE <<PropLists[1 + ((d + i) % 3)]>>
T(i, a, p) == [Tile0 EXCEPT !.id = i, !.attrs = a, !.props = p]
TilesOf(d) == CASE d = 1 -> << T(2, R1("class", "s:two"), PropsAt(1, 0)), T(0, NoAttrs, <<>>) >>
                [] d = 2 -> << [T(10, R1("class", "s:"), <<>>) EXCEPT !.animation = << <<[tileid |-> 1, duration |-> 5]>> >>],
                               T(3, [class |-> "s:3", x |-> "n:4"], PropsAt(2, 1)), T(9, R1("class", "s:nine"), <<>>) >>
                [] d = 3 -> <<>>
Version(d) == CASE d = 1 -> "s:1.2" [] d = 2 -> "s:1" [] d = 3 -> "s:1.6"

(* what is written *)
WriteProps(ps) == IF ps = <<>> THEN [form |-> "absent"]
                  ELSE IF "props" \in old
                  THEN [form |-> "object", val |-> [n \in {ps[1][i].name : i \in DOMAIN ps[1]} |->
                                                     (CHOOSE x \in Range(ps[1]) : x.name = n).val]]
                  ELSE [form |-> "list", val |-> ps[1]]
WriteClass(a) == IF "class" \notin DOMAIN a THEN NoAttrs
                 ELSE CASE key = "class" -> R1("class", a.class)
                        [] key = "type" -> R1("type", a.class)
                        [] key = "both" -> [class |-> a.class, type |-> "not " \o a.class]
WriteTile(t) == WriteClass(t.attrs) @@ [props |-> WriteProps(t.props)]
WriteTiles(ts) == IF "tiles" \in old THEN [form |-> "object", val |-> [i \in {ts[j].id : j \in DOMAIN ts} |->
                                             WriteTile(CHOOSE t \in Range(ts) : t.id = i)]]
                  ELSE [form |-> "list", val |-> [j \in DOMAIN ts |-> R1("id", ts[j].id) @@ WriteTile(ts[j])]]
(* what a reader makes of it *)
ReadProps(w) == CASE w.form = "absent" -> <<>> [] w.form = "object" -> <<w.val>>
                  [] w.form = "list" -> <<PropMap(w.val)>>
ReadClass(w) == IF "class" \in DOMAIN w THEN w.class ELSE IF "type" \in DOMAIN w THEN w.type ELSE None
ReadTile(i, w) == [id |-> i, class |-> ReadClass(w), props |-> ReadProps(w.props)]
ReadTiles(w) == IF w.form = "object" THEN {ReadTile(i, w.val[i]) : i \in DOMAIN w.val}
                ELSE {ReadTile(w.val[j].id, w.val[j]) : j \in DOMAIN w.val}
Meant(ts) == {[id |-> t.id, class |-> Opt(t.attrs, "class", None), props |-> Props(t.props)] : t \in Range(ts)}

TilesSame == ReadTiles(WriteTiles(TilesOf(doc))) = Meant(TilesOf(doc))
PropsSame == \A i \in 0..2 : ReadProps(WriteProps(PropsAt(doc, i))) = Props(PropsAt(doc, i))

------------------------------------------------------------------------------
ObjectsOf(d) == << [ObjAt(1) EXCEPT !.attrs = R1("class", "s:c1") @@ @, !.props = PropsAt(d, 1)],
                   [ObjAt(2) EXCEPT !.attrs = R1("class", "s:") @@ @, !.kind = "ellipse"],
                   [ObjAt(3) EXCEPT !.kind = "inherit", !.template = <<[src |-> <<"t.tj">>, tpl |-> "t"]>>,
                                    !.props = PropsAt(d, 2)],
                   [ObjAt(4) EXCEPT !.kind = "inherit", !.template = <<[src |-> <<"t.tj">>, tpl |-> "t"]>>,
                                    !.attrs = R1("class", "s:own") @@ @] >>
TplObj == [Obj0 EXCEPT !.attrs = [id |-> "n:1", class |-> "s:tplclass"], !.kind = "point", !.props = <<P2>>]
SetOf(d) == [Ts0 EXCEPT !.tilecount = 12, !.tiles = TilesOf(d), !.props = PropsAt(d, 2),
                        !.attrs = [version |-> Version(d)]
                                  @@ (IF "columns" \in old THEN [k \in DOMAIN @ \ {"columns"} |-> @[k]] ELSE @)]
Attrs(d) == LET a == [version |-> Version(d)] @@ MapA IN [k \in DOMAIN a \ left |-> a[k]]
LeftOut == \A k \in left : MapAttrs([fmt |-> "json", map |-> [attrs |-> Attrs(doc)]])
                             [IF k = "nextlayerid" THEN "next_layer_id" ELSE IF k = "tiledversion" THEN "tiled_version" ELSE k] = Defaults[k]

Doc(how) == LET m == MapOf(<< ObjL("s:o", ObjectsOf(doc)), [GrpL("s:g", << [ImgL("s:i", <<"i.png">>) EXCEPT !.props = PropsAt(doc, 0)] >>)
                                                              EXCEPT !.props = PropsAt(doc, 1)] >>)
                s == Scenario("json", [m EXCEPT !.attrs = Attrs(doc), !.props = PropsAt(doc, 0),
                                       !.tsrefs = << IF how = "embedded" THEN Embedded(1, "s") ELSE External(1, "s", "json", <<"s.tsj">>) >>],
                              R1("s", SetOf(doc)), R1("t", [object |-> TplObj, fmt |-> "json", tileset |-> <<>>]))
            IN [s EXCEPT !.style = [seed |-> 1, legacy |-> old, classkey |-> key]]
Export == Emit(Doc("embedded")) /\ Emit(Doc("external"))
=============================================================================
