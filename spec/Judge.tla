------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Trace specification for loads.  OBS names a file of recorded loads, one *)
(* per line; each step consumes one record, and the record conforms when   *)
(* its differences from the specification are none.  A record is           *)
(*    [id, mode |-> "load", s: the scenario, obs: what was reported]       *)
(*    [id, mode |-> "pair", valid, a, b: two observations, flat]           *)
(*    [id, mode |-> "world", s, obs]     [id, mode |-> "file", c, obs]     *)
(*    [id, mode |-> "types", obs]                                          *)
(*    "session", "sched" and "access": see Session.tla and Access.tla      *)
(* Verdicts go to OUT, one line per record that does not conform, and the  *)
(* postcondition says that all records were consumed.  PROP names the      *)
(* property being decided.                                                 *)
(***************************************************************************)
EXTENDS Pair, World, Files, Types, Session, Access, Json, IOUtils, CSV

Records == ndJsonDeserialize(IOEnv.OBS)
P == IOEnv.PROP

VARIABLE l

Found(r) ==
  CASE r.mode = "load" -> Diffs(r.s, r.obs)
    [] r.mode = "pair" -> PairDiffs(P, r.valid, r.a, r.b)
    [] r.mode = "world" -> WorldDiffs(r.s, r.obs)
    [] r.mode = "file" -> FileDiffs(r.c, r.obs)
    [] r.mode = "types" -> TypeDiffs(r.obs)
    [] r.mode = "session" -> SessionDiffs(r)
    [] r.mode = "sched" -> SchedDiffs(r)
    [] r.mode = "access" -> AccessDiffs(r.s, r.obs)
Verdict(r) == {d \in Found(r) : Breaks(P, d)}
Report(r) == LET d == Verdict(r)
             IN IF d = {} THEN TRUE
                ELSE CSVWrite("%1$s", <<ToJson([id |-> r.id, diffs |-> d])>>, IOEnv.OUT)

Init == l = 1
Next == l <= Len(Records) /\ Report(Records[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l

Consumed == TLCGet("stats").diameter = Len(Records) + 1
=============================================================================
