----------------------------- MODULE MC_Template ------------------------------
(***************************************************************************)
(* P06.  Loading an instance of a template.  The reader first takes the    *)
(* template's object apart, one written part after the other, and then the *)
(* instance; what the instance writes replaces what the template wrote,    *)
(* part by part; properties are merged by name.                            *)
(***************************************************************************)
EXTENDS Build
CONSTANTS Modes,             \* which values: see Val
          Kinds,             \* kinds of template objects
          PNames, PVals      \* names and values of properties

Attrs == {"width", "height", "rotation", "visible", "name", "class"}
(* values of the two sides: plain, or empty/zero/false on one side *)
Val(mode, side, k) ==
  LET low == (mode = "low-inst" /\ side = "i") \/ (mode = "low-tpl" /\ side = "t")
      i == side = "i"
  IN CASE k = "width" -> IF low THEN "n:0" ELSE IF i THEN "n:11" ELSE "n:21.5"
       [] k = "height" -> IF low THEN "n:0" ELSE IF i THEN "n:12.25" ELSE "n:22"
       [] k = "rotation" -> IF low THEN "n:0" ELSE IF i THEN "n:-13" ELSE "n:23"
       [] k = "visible" -> IF low THEN "b:true" ELSE IF i THEN (IF mode = "low-tpl" THEN "b:false" ELSE "b:true") ELSE "b:false"
       [] k = "name" -> IF low THEN "s:" ELSE IF i THEN "s:inst" ELSE "s:tpl"
       [] k = "class" -> IF low THEN "s:" ELSE IF i THEN "s:ci" ELSE "s:ct"

VARIABLES part,              \* "attrs", "kind" or "props"
          mode, kind,        \* values used; kind of the template object
          T, I,              \* attributes written in the template, in the instance
          tp, ip,            \* properties written: <<>> or <<list>>
          own,               \* does the instance write its own shape, text or tile id?
          phase,             \* "template" or "instance"
          res                \* what has been read: [attrs, props, shape]
vars == <<part, mode, kind, T, I, tp, ip, own, phase, res>>

Prop(n, v) == [name |-> n, type |-> v[1], val |-> v[2], hex |-> <<>>]

Init == /\ part \in {"attrs", "kind", "props"}
        /\ mode \in (IF part = "attrs" THEN Modes ELSE {"plain"})
        /\ kind \in (IF part = "kind" THEN Kinds ELSE {"rectangle"})
        /\ T = {} /\ I = {} /\ tp = <<>> /\ ip = <<>> /\ own = FALSE /\ phase = "template"
        /\ res = [attrs |-> << >>, props |-> << >>, shape |-> "none"]

Put(f, k, v) == (k :> v) @@ f
TplAttr(k) == /\ part = "attrs" /\ phase = "template" /\ k \notin T
              /\ T' = T \cup {k} /\ res' = [res EXCEPT !.attrs = Put(@, k, Val(mode, "t", k))]
              /\ UNCHANGED <<part, mode, kind, I, tp, ip, own, phase>>
Turn == /\ phase = "template" /\ phase' = "instance"
        /\ res' = [res EXCEPT !.shape = "template"]
        /\ UNCHANGED <<part, mode, kind, T, I, tp, ip, own>>
InstAttr(k) == /\ part = "attrs" /\ phase = "instance" /\ k \notin I
               /\ I' = I \cup {k} /\ res' = [res EXCEPT !.attrs = Put(@, k, Val(mode, "i", k))]
               /\ UNCHANGED <<part, mode, kind, T, tp, ip, own, phase>>
Names(l) == IF l = <<>> THEN {} ELSE {l[1][i].name : i \in DOMAIN l[1]}
More(l, p) == IF l = <<>> THEN << <<p>> >> ELSE <<Append(l[1], p)>>
TplProp(n, v) == /\ part = "props" /\ phase = "template" /\ n \notin Names(tp)
                 /\ tp' = More(tp, Prop(n, v)) /\ res' = [res EXCEPT !.props = Put(@, n, v[2])]
                 /\ UNCHANGED <<part, mode, kind, T, I, ip, own, phase>>
InstProp(n, v) == /\ part = "props" /\ phase = "instance" /\ n \notin Names(ip)
                  /\ ip' = More(ip, Prop(n, v)) /\ res' = [res EXCEPT !.props = Put(@, n, v[2])]
                  /\ UNCHANGED <<part, mode, kind, T, I, tp, own, phase>>
Own == /\ part = "kind" /\ phase = "instance" /\ ~own /\ kind \in {"polygon", "polyline", "text", "tile"}
       /\ own' = TRUE /\ res' = [res EXCEPT !.shape = "instance"]
       /\ UNCHANGED <<part, mode, kind, T, I, tp, ip, phase>>
Next == \/ \E k \in Attrs : TplAttr(k) \/ InstAttr(k)
        \/ Turn \/ Own
        \/ \E n \in PNames, v \in PVals : TplProp(n, v) \/ InstProp(n, v)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* the documents *)
Content(side) ==
  LET i == side = "i" IN
  [ points |-> IF kind \in {"polygon", "polyline"}
               THEN IF i THEN << <<"n:0", "n:0">>, <<"n:5", "n:-1.5">> >>
                    ELSE << <<"n:1", "n:2">>, <<"n:3", "n:4">>, <<"n:0", "n:-2">> >> ELSE <<>>,
    text |-> IF kind = "text"
             THEN << IF i THEN [text |-> "s:own", attrs |-> [bold |-> "b:true"]]
                     ELSE [text |-> "s:tpl", attrs |-> [italic |-> "b:true", pixelsize |-> "n:9"]] >> ELSE <<>>,
    gid |-> IF kind = "tile" THEN << IF i THEN <<2, 3>> ELSE <<4, 2>> >> ELSE <<>> ]
TplObject == [Obj0 EXCEPT !.attrs = [k \in T |-> Val(mode, "t", k)] @@ [id |-> "n:77"],
                          !.kind = kind, !.points = Content("t").points, !.text = Content("t").text,
                          !.gid = Content("t").gid, !.props = tp]
Inst(fmt) ==
  LET base == [Obj0 EXCEPT !.attrs = [k \in I |-> Val(mode, "i", k)] @@ [id |-> "n:5", x |-> "n:8", y |-> "n:-9.5"],
                           !.kind = "inherit", !.props = ip,
                           !.template = << [src |-> <<"tp", IF fmt = "tmx" THEN "o.tx" ELSE "o.tj">>, tpl |-> "o"] >>]
      c == Content("i")
  IN IF ~own THEN base
     ELSE IF kind = "tile" THEN [base EXCEPT !.gid = c.gid]
     ELSE [base EXCEPT !.kind = kind, !.points = c.points, !.text = c.text]
SetSrc(fmt) == IF fmt = "tmx" THEN <<"s.tsx">> ELSE <<"s.tsj">>
DocOf(fmt) ==
  Scenario(fmt,
    [MapOf(<<ObjL("s:L", <<Inst(fmt)>>)>>) EXCEPT !.tsrefs = IF kind = "tile" THEN <<External(1, "s", fmt, SetSrc(fmt))>> ELSE <<>>],
    R1("s", Ts0),
    R1("o", [fmt |-> fmt, object |-> TplObject,
             tileset |-> IF kind = "tile" THEN << [src |-> <<"..">> \o SetSrc(fmt), how |-> fmt, ts |-> "s"] >> ELSE <<>>]))

Read == phase = "instance"
Eff(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
(* what the step-by-step reading gives is what the document denotes *)
Denoted ==
  Read => \A fmt \in Formats :
    LET r == ObjRes(DocOf(fmt), Inst(fmt))
    IN /\ \A k \in Attrs : r.attrs[k] = IF k \in DOMAIN res.attrs THEN res.attrs[k] ELSE ObjAttrs(Obj0)[k]
       /\ r.props = << res.props >>
       /\ r.kind = kind
       /\ r.attrs.id = "n:5" /\ r.attrs.x = "n:8" /\ r.attrs.y = "n:-9.5"
       /\ r.points = Content(IF res.shape = "instance" THEN "i" ELSE "t").points
       /\ r.gid = Content(IF res.shape = "instance" THEN "i" ELSE "t").gid
(* the instance's own values stay; a part is changed only by writing it *)
InstanceWins == \A k \in I : res.attrs[k] = Val(mode, "i", k)
OneAtATime == [][\A k \in Attrs : (k \in DOMAIN res.attrs /\ k \notin (T' \ T) \cup (I' \ I)) => res'.attrs[k] = res.attrs[k]]_vars
Export == Read => EmitBoth(DocOf)

QModes == {"plain", "low-inst"}
DModes == {"plain", "low-inst", "low-tpl"}
AllKinds == {"rectangle", "ellipse", "point", "polygon", "polyline", "text", "tile"}
QVals == {<<"int", "n:0">>, <<"string", "s:v">>}
DVals == {<<"int", "n:0">>, <<"string", "s:v">>, <<"bool", "b:false">>}
=============================================================================
