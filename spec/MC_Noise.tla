------------------------------- MODULE MC_Noise -------------------------------
(***************************************************************************)
(* P22.  Content the library does not know.  Documents are trees, as the   *)
(* harness writes them (DOCS): t is the tag of an element, or "{}", "[]",  *)
(* "leaf", "data" in JSON; x says that the node holds text; c are its      *)
(* children.  Next puts one unknown thing somewhere into a tree: an        *)
(* attribute, an element, a comment, a processing instruction, a key.      *)
(* What a reader that looks things up by name sees stays the same.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, CSV, TLC
Docs == ndJsonDeserialize(IOEnv.DOCS)
CONSTANTS Elems, Comments, Attrs, Keys      \* how many different ones there are of each

RECURSIVE Places(_, _)
Places(fmt, n) ==
  LET own == IF fmt = "tmx"
             THEN {[path |-> <<i>>, kind |-> "attr", n |-> k] : i \in 0..1, k \in 1..Attrs}
                  \cup (IF n.x THEN {[path |-> <<i>>, kind |-> "text", n |-> k] : i \in 0..2, k \in 1..Comments}
                        ELSE {[path |-> <<i>>, kind |-> "elem", n |-> k] : i \in 0..Len(n.c), k \in 1..Elems}
                             \cup {[path |-> <<i>>, kind |-> "comment", n |-> k] : i \in 0..Len(n.c), k \in 1..Comments})
             ELSE IF n.t = "{}" THEN {[path |-> <<i>>, kind |-> "key", n |-> k] : i \in 0..Len(n.c), k \in 1..Keys} ELSE {}
  IN own \cup UNION {{[p EXCEPT !.path = <<i - 1>> \o @] : p \in Places(fmt, n.c[i])} : i \in DOMAIN n.c}

Vp(p) == [t |-> "vp " \o p.kind, x |-> FALSE, c |-> <<>>]
InsertAt(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
RECURSIVE Put(_, _, _)
Put(n, path, x) ==
  IF Len(path) = 1 THEN [n EXCEPT !.c = InsertAt(@, IF path[1] <= Len(@) THEN path[1] ELSE Len(@), x)]
  ELSE [n EXCEPT !.c[path[1] + 1] = Put(@, Tail(path), x)]

Unknown == {"vp attr", "vp elem", "vp comment", "vp key", "vp text"}
IsKnown(n) == n.t \notin Unknown
RECURSIVE Known(_)
Known(n) == LET q == SelectSeq(n.c, IsKnown) IN [n EXCEPT !.c = [i \in DOMAIN q |-> Known(q[i])]]

VARIABLES doc, place
vars == <<doc, place>>
Nowhere == [path |-> <<>>, kind |-> "none", n |-> 0]
Init == doc \in DOMAIN Docs /\ place = Nowhere
Next == place = Nowhere /\ place' \in Places(Docs[doc].fmt, Docs[doc].tree) /\ UNCHANGED doc
Spec == Init /\ [][Next]_vars
Tree == IF place = Nowhere THEN Docs[doc].tree ELSE Put(Docs[doc].tree, place.path, Vp(place))
SameMeaning == Known(Tree) = Docs[doc].tree
Export == (place # Nowhere) => CSVWrite("%1$s", <<ToJson([doc |-> doc, place |-> place])>>, IOEnv.OUT)
=============================================================================
