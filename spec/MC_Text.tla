-------------------------------- MODULE MC_Text -------------------------------
(***************************************************************************)
(* P19.  Text and how files spell it.  A string grows character by         *)
(* character, over the characters that matter to XML or JSON; each         *)
(* character is written as itself, as an entity or as a character          *)
(* reference, as the place allows.  What a reader makes of the spelling is *)
(* the string, in every place and in every mixture of spellings.           *)
(*                                                                         *)
(* Characters are named; Raw says where a character may stand for itself.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, CSV, TLC
CONSTANTS Len0, Full

Chars == {"a", "lt", "amp", "gt", "quot", "apos", "nl", "tab", "sp", "cr", "e9", "emoji", "rbr", "bsl", "nbsp", "zero", "ls", "slash", "pct"}
Few == {"a", "lt", "amp", "quot", "nl", "sp", "emoji", "rbr"}
Places == {"attr", "attr1", "elem", "json"}      \* attr: in double quotes; attr1: in single quotes

(* may the character stand for itself? *)
Raw(pl, c) ==
  CASE pl = "attr" -> c \notin {"lt", "amp", "quot", "nl", "tab", "cr"}
    [] pl = "attr1" -> c \notin {"lt", "amp", "apos", "nl", "tab", "cr"}
    [] pl = "elem" -> c \notin {"lt", "amp", "gt", "cr"}
    [] pl = "json" -> c \notin {"quot", "bsl", "nl", "tab", "cr"}
Entities == {"lt", "amp", "gt", "quot", "apos"}
(* the ways to write a character at a place *)
Ways(pl, c) == (IF Raw(pl, c) THEN {<<"raw", c>>} ELSE {})
               \cup (IF pl = "json" THEN {<<"uni", c>>} \cup (IF c \in {"quot", "bsl", "nl", "tab", "cr", "slash"} THEN {<<"short", c>>} ELSE {})
                     ELSE {<<"ref", c>>, <<"hex", c>>} \cup (IF c \in Entities THEN {<<"ent", c>>} ELSE {}))
(* XML readers turn a raw line end of an attribute into a blank, and a raw   *)
(* carriage return into a line feed                                          *)
Seen(pl, w) == IF w[1] # "raw" THEN w[2]
               ELSE IF pl \in {"attr", "attr1"} /\ w[2] \in {"nl", "tab", "cr"} THEN "sp"
               ELSE IF pl # "json" /\ w[2] = "cr" THEN "nl" ELSE w[2]

VARIABLES str, place, src
vars == <<str, place, src>>
Init == str = <<>> /\ src = <<>> /\ place \in Places
Next == /\ Len(str) < Len0
        /\ \E c \in (IF Len(str) < Full THEN Chars ELSE Few) :
             /\ str' = Append(str, c)
             /\ IF Len(str) < Full THEN \E w \in Ways(place, c) : src' = Append(src, w)
                ELSE src' = Append(src, CHOOSE w \in Ways(place, c) : TRUE)
        /\ UNCHANGED place
Spec == Init /\ [][Next]_vars

Verbatim == [i \in DOMAIN src |-> Seen(place, src[i])] = str
Export == CSVWrite("%1$s", <<ToJson([str |-> str, place |-> place, src |-> src])>>, IOEnv.OUT)
=============================================================================
