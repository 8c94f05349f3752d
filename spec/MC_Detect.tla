------------------------------ MODULE MC_Detect -------------------------------
(***************************************************************************)
(* P16.  Recognising a file.  The loader reads characters until one that   *)
(* is not blank and takes that as the mark of the format; then it parses   *)
(* the whole.  The name of the file plays no part.  The file may be the    *)
(* one given, or one the document refers to.                               *)
(***************************************************************************)
EXTENDS Files, Json, IOUtils, CSV
CONSTANTS MaxLead, Roles, Fmts, NameKinds

Blanks == {"sp", "nl", "tab", "cr"}
(* what follows the blanks: nothing, whole documents, or rubbish starting so *)
Bodies == {"none", "xml", "json", "lt", "brace", "letter", "quote", "byte", "bracket", "colon"}

VARIABLES role, mapfmt, names, lead, body, pos, fmt, res
vars == <<role, mapfmt, names, lead, body, pos, fmt, res>>
Init == /\ role \in Roles /\ mapfmt \in Fmts /\ names \in NameKinds
        /\ \E k \in 0..MaxLead : lead \in [1..k -> Blanks]
        /\ body \in Bodies /\ pos = 0 /\ fmt = "" /\ res = ""
Skip == /\ fmt = "" /\ res = "" /\ pos < Len(lead) /\ pos' = pos + 1 /\ UNCHANGED <<role, mapfmt, names, lead, body, fmt, res>>
Mark == /\ fmt = "" /\ res = "" /\ pos = Len(lead)
        /\ IF body = "none" THEN res' = "UnknownFormat" /\ UNCHANGED fmt
           ELSE IF body = "byte" THEN res' = "UnknownFormat" /\ UNCHANGED fmt
           ELSE fmt' = (IF body \in {"xml", "lt"} THEN "tmx" ELSE "json") /\ UNCHANGED res
        /\ UNCHANGED <<role, mapfmt, names, lead, body, pos>>
Parse == /\ fmt # "" /\ res = ""
         /\ res' = (IF body \in {"xml", "json"}
                    THEN IF role = "template" /\ fmt # mapfmt THEN "NotImplementedError" ELSE "ok"
                    ELSE IF fmt = "json" THEN "UnknownFormat" ELSE "error")
         /\ UNCHANGED <<role, mapfmt, names, lead, body, pos, fmt>>
Next == Skip \/ Mark \/ Parse
Spec == Init /\ [][Next]_vars

Content == CASE body = "none" -> IF lead = <<>> THEN "empty" ELSE "blank"
             [] body = "xml" -> "xml" [] body = "json" -> "json" [] body = "lt" -> "angle"
             [] body = "byte" -> "binary" [] OTHER -> "text"
Case == [role |-> role, mapfmt |-> mapfmt, content |-> Content]
(* the reading agrees with what the property asks *)
Agrees == (res # "") => LET want == FileWant(Case)
                        IN IF want = {} THEN res = "ok"
                           ELSE res # "ok" /\ ("any" \in want \/ res \in want)
ByContent == (fmt # "") => fmt = FmtOf(Content)
Export == (res # "") => CSVWrite("%1$s", <<ToJson([c |-> Case, lead |-> lead, body |-> body, names |-> names])>>, IOEnv.OUT)
AllRoles == {"map", "tileset", "exttileset", "template", "tpltileset"}
AllFmts == {"tmx", "json"}
AllNames == {"right", "wrong", "none", "plain", "crossed", "other", "upper", "png"}
=============================================================================
