------------------------------ MODULE MC_Objects ------------------------------
(***************************************************************************)
(* P07.  An object document is written part by part: attributes, the parts *)
(* of a text, the points of a shape.  Each step changes what is reported   *)
(* for its own part only, whatever else has been written.                  *)
(***************************************************************************)
EXTENDS Build
CONSTANTS Modes, MaxPoints, Coords

OAttrs == {"width", "height", "rotation", "visible", "name", "class"}
XAttrs == {"color", "fontfamily", "pixelsize", "bold", "italic", "kerning", "strikeout", "underline", "halign", "valign", "wrap"}
OVal(m, k) ==
  CASE k = "width" -> IF m = "low" THEN "n:0" ELSE "n:10.5"
    [] k = "height" -> IF m = "low" THEN "n:0" ELSE "n:7"
    [] k = "rotation" -> IF m = "low" THEN "n:0" ELSE "n:-45.25"
    [] k = "visible" -> IF m = "low" THEN "b:true" ELSE "b:false"
    [] k = "name" -> IF m = "low" THEN "s:" ELSE "s:n%20m"
    [] k = "class" -> IF m = "low" THEN "s:" ELSE "s:cls"
(* low: the empty, zero or false value; high: what is not the default *)
XVal(m, k) ==
  CASE k = "color" -> [hex |-> IF m = "low" THEN <<0, 0, 0, 0, 0, 0, 0, 0>> ELSE <<1, 2, 3, 4, 5, 6>>, hash |-> TRUE]
    [] k = "fontfamily" -> IF m = "low" THEN "s:" ELSE "s:Sans%20X"
    [] k = "pixelsize" -> IF m = "low" THEN "n:0" ELSE "n:33"
    [] k = "kerning" -> "b:false"
    [] k = "halign" -> IF m = "low" THEN "s:left" ELSE "s:justify"
    [] k = "valign" -> IF m = "low" THEN "s:top" ELSE "s:bottom"
    [] OTHER -> IF m = "low" THEN "b:false" ELSE "b:true"

VARIABLES part, mode, kind, A, X, pts
vars == <<part, mode, kind, A, X, pts>>

Kinds == {"rectangle", "ellipse", "point", "polygon", "polyline", "text", "tile"}
Init == /\ part \in {"attrs", "text", "points"}
        /\ mode \in Modes
        /\ kind \in (CASE part = "attrs" -> Kinds [] part = "text" -> {"text"} [] part = "points" -> {"polygon", "polyline"})
        /\ A = {} /\ X = {}
        /\ pts = IF part = "points" THEN <<>> ELSE << <<"n:1", "n:2">> >>
AddAttr(k) == part = "attrs" /\ k \notin A /\ A' = A \cup {k} /\ UNCHANGED <<part, mode, kind, X, pts>>
AddText(k) == part = "text" /\ k \notin X /\ X' = X \cup {k} /\ UNCHANGED <<part, mode, kind, A, pts>>
AddPoint(x, y) == part = "points" /\ Len(pts) < MaxPoints /\ pts' = Append(pts, <<x, y>>) /\ UNCHANGED <<part, mode, kind, A, X>>
Next == (\E k \in OAttrs : AddAttr(k)) \/ (\E k \in XAttrs : AddText(k)) \/ (\E x, y \in Coords : AddPoint(x, y))
Spec == Init /\ [][Next]_vars

Doc0(a, x, p) ==
  [Obj0 EXCEPT !.attrs = [k \in a |-> OVal(mode, k)] @@ [id |-> "n:3", x |-> "n:1.25", y |-> "n:-2"],
               !.kind = kind,
               !.points = IF kind \in {"polygon", "polyline"} THEN p ELSE <<>>,
               !.text = IF kind = "text" THEN << [text |-> "s:hi", attrs |-> [k \in x |-> XVal(mode, k)]] >> ELSE <<>>,
               !.gid = IF kind = "tile" THEN << <<10, 2>> >> ELSE <<>>]
DocOf(fmt) ==
  Scenario(fmt, [MapOf(<<ObjL("s:L", <<Doc0(A, X, pts)>>)>>) EXCEPT !.tsrefs = <<Embedded(1, "s")>>], R1("s", Ts0), NoAttrs)
Res == ObjRes(DocOf("tmx"), Doc0(A, X, pts))
ResNext == ObjRes(DocOf("tmx"), Doc0(A', X', pts'))

Field == [width |-> "width", height |-> "height", rotation |-> "rotation", visible |-> "visible", name |-> "name", class |-> "class"]
TField == [color |-> "color", fontfamily |-> "font_family", pixelsize |-> "font_size", bold |-> "bold", italic |-> "italic",
           kerning |-> "kerning", strikeout |-> "strike_out", underline |-> "underline", halign |-> "horizontal_align",
           valign |-> "vertical_align", wrap |-> "wrap"]
Independent == [][/\ \A f \in DOMAIN Res.attrs : f \notin {Field[k] : k \in A' \ A} => ResNext.attrs[f] = Res.attrs[f]
                  /\ kind = "text" => \A f \in DOMAIN Res.text[1] :
                        f \notin {TField[k] : k \in X' \ X} => ResNext.text[1][f] = Res.text[1][f]]_vars
OneKind == Res.kind = kind
PointsKept == kind \in {"polygon", "polyline"} => Res.points = pts
Export == (pts # <<>>) => EmitBoth(DocOf)

AllModes == {"low", "high"}
QCoords == {"n:0", "n:-1.5", "n:20"}
DCoords == {"n:0", "n:-1.5", "n:20", "n:0.001"}
=============================================================================
