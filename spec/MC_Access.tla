------------------------------ MODULE MC_Access ------------------------------
(***************************************************************************)
(* P18.  A loader that reads the files of a reference graph in any order.  *)
(* A map names two tilesets ("a", "b") or not, and objects that are        *)
(* instances of templates "t" and "u", each with a tileset of its own, one *)
(* of the map's, or none; neighbours are there that nothing names.  In     *)
(* every order of reading, what has been read is what the map reaches, and *)
(* the rules of Access.tla accept it.                                      *)
(***************************************************************************)
EXTENDS Build, Access

Sets == {"a", "b", "c"}
TplKeys == {"t", "u"}
VARIABLES graph, nested, opened, done
vars == <<graph, nested, opened, done>>
Graphs == [sets : SUBSET {"a", "b"}, objs : {<<>>, <<"t">>, <<"t", "u">>, <<"u", "t", "u">>},
           tset : {"a", "c", "none"}, uset : {"b", "c", "none"}, shape : {"tmx", "json"}]
Init == graph \in Graphs /\ nested \in {TRUE, FALSE} /\ opened = {} /\ done = FALSE

TsDoc(k) == [Ts0 EXCEPT !.attrs = [name |-> "s:" \o k, tilewidth |-> "n:16", tileheight |-> "n:16", columns |-> "n:2"],
                        !.image = <<[segs |-> <<k \o ".png">>, w |-> "n:32", h |-> "n:32"]>>]
SetSrc(k) == <<k \o (IF graph.shape = "tmx" THEN ".tsx" ELSE ".tsj")>>
SetOf(t) == IF t = "t" THEN graph.tset ELSE graph.uset
TplDoc(fmt, t) ==
  [ fmt |-> fmt,
    object |-> [Obj0 EXCEPT !.attrs = [id |-> "n:7", name |-> "s:" \o t], !.kind = IF SetOf(t) = "none" THEN "ellipse" ELSE "tile",
                            !.gid = IF SetOf(t) = "none" THEN <<>> ELSE << <<0, 2>> >>],
    tileset |-> IF SetOf(t) = "none" THEN <<>>
                ELSE << [src |-> <<"..", "sets">> \o SetSrc(SetOf(t)), how |-> graph.shape, ts |-> SetOf(t)] >> ]
Inst(fmt, i, t) == [ObjAt(i) EXCEPT !.kind = "inherit",
                      !.template = << [src |-> <<"tpl", t \o (IF fmt = "tmx" THEN ".tx" ELSE ".tj")>>, tpl |-> t] >>]
Order == SetToSortSeq(graph.sets, LAMBDA x, y : x = "a")
DocOf(fmt) ==
  LET ol == ObjL("s:O", [i \in DOMAIN graph.objs |-> Inst(fmt, i, graph.objs[i])])
      ls == <<TileL("s:T", 1, 1, << <<0, 0>> >>), IF nested THEN GrpL("s:G", <<ImgL("s:I", <<"i.png">>), ol>>) ELSE ol>>
  IN Scenario(fmt, [MapOf(ls) EXCEPT !.tsrefs = [i \in DOMAIN Order |-> External(1 + 10 * i, Order[i], graph.shape, <<"sets">> \o SetSrc(Order[i]))]],
              [k \in Sets |-> TsDoc(k)], [t \in TplKeys |-> TplDoc(fmt, t)])
Doc == DocOf("tmx")

(* the loader knows what the files it has read name *)
Known == {EntryPath(Doc)} \cup UNION {Names(Doc, p) : p \in opened}
Open(p) == ~done /\ p \in Known /\ p \notin opened /\ opened' = opened \cup {p} /\ UNCHANGED <<graph, nested, done>>
End == ~done /\ Known = opened /\ done' = TRUE /\ UNCHANGED <<graph, nested, opened>>
Next == End \/ \E p \in Known : Open(p)
Spec == Init /\ [][Next]_vars

(* what the graph reaches, told without files *)
SetFile(k) == JoinP(Base \o <<"sets">> \o SetSrc(k))
Reached == {EntryPath(Doc)} \cup {SetFile(k) : k \in graph.sets}
           \cup {JoinP(Base \o <<"tpl", t \o ".tx">>) : t \in Range(graph.objs)}
           \cup {SetFile(SetOf(t)) : t \in {x \in Range(graph.objs) : SetOf(x) # "none"}}
OnlyReached == opened \subseteq Reached
AllReached == done => opened = Reached
Unnamed == "c" \notin {SetOf(t) : t \in Range(graph.objs)} => SetFile("c") \notin opened
Export == (opened = {}) => EmitBoth(DocOf)
=============================================================================
