------------------------------- MODULE MC_Props -------------------------------
(***************************************************************************)
(* P08.  A custom property list is written entry by entry; the map that is *)
(* reported grows or has one entry replaced at each step, and every entry  *)
(* keeps the type and value of its last writing.                           *)
(***************************************************************************)
EXTENDS Build
CONSTANTS N, Names, Full

(* every type with its critical values *)
Strings == {"s:", "s:0", "s:false", "s:None", "s:%20", "s:two%0Alines", "s:%0Aa%0A", "s:%23ff0000", "s:1.5", "s:a%26%3Cb%3E%22"}
Vals(t) ==
  CASE t = "string" -> Strings
    [] t = "int" -> {"n:0", "n:-1", "n:7", "n:2147483647", "n:-2147483648"}
    [] t = "float" -> {"n:0", "n:1", "n:-0.5", "n:2.25", "n:123456.789"}
    [] t = "bool" -> {"b:true", "b:false"}
    [] t = "file" -> {"p:a.png", "p:../b/c.txt", "p:d%20e/f", "p:.", "p:/a/b"}
    [] t = "object" -> {"n:0", "n:3"}
Types == {"string", "int", "float", "bool", "file", "object"}
Colors == {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<15, 15, 0, 0, 10, 11>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, <<15, 15, 15, 15, 15, 15, 15, 15>>}
Entry(n, t, v) == [name |-> n, type |-> t, val |-> v, hex |-> <<>>]
Entries(n) == UNION {{Entry(n, t, v) : v \in Vals(t)} : t \in Types}
              \cup {[name |-> n, type |-> "color", val |-> None, hex |-> h, hash |-> TRUE] : h \in Colors}
(* few, for the longer lists *)
Some(n) == {Entry(n, "string", "s:"), Entry(n, "int", "n:0"), Entry(n, "bool", "b:false"), Entry(n, "string", "s:x%0Ay"),
            Entry(n, "object", "n:2")}

VARIABLES list, map
vars == <<list, map>>
Init == list = <<>> /\ map = << >>
Add(e) == list' = Append(list, e) /\ map' = (e.name :> PropVal(e)) @@ map
Used == {list[i].name : i \in DOMAIN list}
Next == \/ Len(list) < 1 /\ \E n \in Names : \E e \in Entries(n) : Add(e)
        \/ Len(list) \in 1..(N - 1) /\ \E n \in Names \ Used : \E e \in (IF Len(list) < Full THEN Entries(n) ELSE Some(n)) : Add(e)
Spec == Init /\ [][Next]_vars

MapOfList == Props(<<list>>) = <<map>>
ObjSame == PropsObj(<<list>>) = <<map>>
Complete == DOMAIN map = Used
OthersKept == [][\A n \in DOMAIN map : n \in DOMAIN map' /\ map'[n] = map[n]]_vars

Doc == Scenario("tmx", [MapOf(<<>>) EXCEPT !.props = <<list>>], NoAttrs, NoAttrs)
Export == (list # <<>>) => Emit(Doc)
=============================================================================
