------------------------------- MODULE MC_Wang --------------------------------
(***************************************************************************)
(* P13.  Reading wang sets: a set opens, its properties, colors and tiles  *)
(* come, each possibly with parts of its own, then the next set opens.     *)
(* Everything belongs to the set, and each part to the color, opened last. *)
(***************************************************************************)
EXTENDS Build
CONSTANTS N                  \* most items in a document

VARIABLES doc,               \* the wang sets written
          log                \* what was read: items in order, with the set (and color) they belong to
vars == <<doc, log>>

Ids == <<0, 7, 2>>
WangIds == << <<1, 2, 3, 4, 5, 6, 7, 8>>, <<0, 0, 0, 0, 0, 0, 0, 1>>, <<2, 0, 1, 0, 255, 0, 3, 0>>, <<0, 0, 0, 0, 0, 0, 0, 0>> >>
K == Len(log)
Txt(c) == "s:" \o c \o ToString(K)
Prop1 == << << [name |-> "p" \o ToString(K), type |-> "string", val |-> Txt("v"), hex |-> <<>>] >> >>
Init == doc = <<>> /\ log = <<>>
Room == K < N
Cur == doc[Len(doc)]
Upd(s) == doc' = [doc EXCEPT ![Len(doc)] = s]
Log(k) == log' = Append(log, [kind |-> k, set |-> Len(doc')])

OpenSet(cls, pr) ==
  /\ Room
  /\ doc' = Append(doc, [ name |-> Txt("set"), attrs |-> IF cls = "none" THEN NoAttrs ELSE R1("class", IF cls = "empty" THEN "s:" ELSE Txt("sc")),
                          tile |-> Num(K - 1), type |-> <<"s:corner", "s:edge", "s:mixed">>[(K % 3) + 1],
                          props |-> IF pr THEN Prop1 ELSE <<>>, colors |-> <<>>, tiles |-> <<>> ])
  /\ Log("set")
AddColor(cls, pr, prob) ==
  /\ Room /\ doc # <<>>
  /\ Upd([Cur EXCEPT !.colors = Append(@,
        [ name |-> Txt("col"), attrs |-> IF cls = "none" THEN NoAttrs ELSE R1("class", IF cls = "empty" THEN "s:" ELSE Txt("cc")),
          color |-> [hex |-> IF K % 2 = 1 THEN <<K, 0, 0, 15, 1, K>> ELSE <<0, K, 1, 2, 3, 4, 5, K>>, hash |-> TRUE],
          probability |-> prob, tile |-> Num(2 - K), props |-> IF pr THEN Prop1 ELSE <<>> ])])
  /\ Log("color")
AddTile(w) ==
  /\ Room /\ doc # <<>> /\ Len(Cur.tiles) < Len(Ids)
  /\ Upd([Cur EXCEPT !.tiles = Append(@, [tileid |-> Ids[Len(Cur.tiles) + 1], wangid |-> WangIds[w]])])
  /\ Log("tile")
Next == \/ \E c \in {"none", "empty", "some"}, p \in BOOLEAN : OpenSet(c, p)
        \/ \E c \in {"none", "empty", "some"}, p \in BOOLEAN, q \in {"n:0", "n:1", "n:0.25"} : AddColor(c, p, q)
        \/ \E w \in DOMAIN WangIds : AddTile(w)
Spec == Init /\ [][Next]_vars

Count(k, s) == Cardinality({i \in DOMAIN log : log[i].kind = k /\ log[i].set = s})
Res == [i \in DOMAIN doc |-> WangSetRes(doc[i])]
Complete == \A s \in DOMAIN doc : Len(Res[s].colors) = Count("color", s) /\ Cardinality(Res[s].tiles) = Count("tile", s)
WholeIds == \A s \in DOMAIN doc : \A t \in Res[s].tiles : Len(t.wang_id) = 8 /\ t.key = t.tile_id
(* sets that are closed do not change any more *)
Closed == [][\A i \in 1..(Len(doc) - 1) : doc'[i] = doc[i]]_vars
Doc == Scenario("tmx", [MapOf(<<>>) EXCEPT !.tsrefs = <<Embedded(1, "s")>>], R1("s", [Ts0 EXCEPT !.tilecount = 9, !.wangsets = <<doc>>]), NoAttrs)
Export == (doc # <<>>) => Emit(Doc)
=============================================================================
