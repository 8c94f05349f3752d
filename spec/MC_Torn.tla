------------------------------- MODULE MC_Torn --------------------------------
(***************************************************************************)
(* P21.  Saving a file and crashing.  A writer puts the bytes of a file    *)
(* down one by one; it may crash before any of them; then the files are    *)
(* loaded.  The documents are those of the harness (DOCS): for each the    *)
(* file's role, its format, the number of its leading blanks and the       *)
(* position of the end of its document.                                    *)
(***************************************************************************)
EXTENDS Files, Json, IOUtils, CSV
Docs == ndJsonDeserialize(IOEnv.DOCS)

VARIABLES doc, written, state
vars == <<doc, written, state>>
Init == doc \in DOMAIN Docs /\ written = 0 /\ state = "writing"
Write == state = "writing" /\ written < Docs[doc].end /\ written' = written + 1 /\ UNCHANGED <<doc, state>>
Crash == state = "writing" /\ written < Docs[doc].end /\ state' = "crashed" /\ UNCHANGED <<doc, written>>
Finish == state = "writing" /\ written = Docs[doc].end /\ state' = "saved" /\ UNCHANGED <<doc, written>>
Next == Write \/ Crash \/ Finish
Spec == Init /\ [][Next]_vars

Content == LET d == Docs[doc] IN
  IF state = "saved" THEN IF d.fmt = "tmx" THEN "xml" ELSE "json"
  ELSE IF written = 0 THEN "empty" ELSE IF written <= d.lead THEN "blank"
  ELSE IF d.fmt = "tmx" THEN "torn-xml" ELSE "torn-json"
Case == [role |-> Docs[doc].role, mapfmt |-> Docs[doc].mapfmt, content |-> Content]
(* nothing loads but what was saved to the end *)
NeverHalf == (state = "crashed") => FileWant(Case) # {}
SavedLoads == (state = "saved") => FileWant(Case) = {}
Export == (state # "writing") => CSVWrite("%1$s", <<ToJson([c |-> Case, doc |-> doc, cut |-> written])>>, IOEnv.OUT)
=============================================================================
