------------------------------- MODULE MC_Sched -------------------------------
(***************************************************************************)
(* P17.  Loads in several threads.  Each thread takes the steps of its     *)
(* load one by one; LOADS gives, for each pair of loads, how many steps    *)
(* (line events) each takes, and the steps after which a switch to the     *)
(* other thread is to be considered (ascending; the last one is the end).  *)
(* All schedules with at most Switches such switches; after the first one  *)
(* only at every Coarse-th of them.  Each thread works on what is its own, *)
(* so that both end with what they would have found alone.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, CSV, TLC
Pairs == ndJsonDeserialize(IOEnv.LOADS)
CONSTANTS Switches, Coarse

VARIABLES pair, at, own, running, from, plan
vars == <<pair, at, own, running, from, plan>>
Init == /\ pair \in DOMAIN Pairs /\ at = <<0, 0>> /\ own = <<0, 0>> /\ running = 1 /\ from = 0 /\ plan = <<>>
Points(t) == Pairs[pair].points[t]
Ended(t) == at[t] = Len(Points(t))
Steps(t, i) == IF i = 0 THEN 0 ELSE Points(t)[i]
Min(a, b) == IF a < b THEN a ELSE b
Stride == IF Len(plan) = 0 THEN 1 ELSE IF Len(plan) < Switches THEN Coarse ELSE 1000000
(* run to the next point where a switch is considered *)
Go == /\ ~Ended(running)
      /\ LET to == Min(at[running] + Stride, Len(Points(running)))
         IN /\ at' = [at EXCEPT ![running] = to]
            /\ own' = [own EXCEPT ![running] = @ + Steps(running, to) - Steps(running, at[running])]
      /\ UNCHANGED <<pair, running, from, plan>>
Since == Steps(running, at[running]) - Steps(running, from)
Other == 3 - running
Switch == /\ Since > 0 /\ Len(plan) < Switches /\ ~Ended(running) /\ ~Ended(Other)
          /\ plan' = Append(plan, <<running - 1, Since>>) /\ running' = Other /\ from' = at[Other]
          /\ UNCHANGED <<pair, at, own>>
Finish == /\ Ended(running) /\ ~Ended(Other) /\ running' = Other /\ from' = at[Other]
          /\ UNCHANGED <<pair, at, own, plan>>
Next == Go \/ Switch \/ Finish
Spec == Init /\ [][Next]_vars
Own == \A t \in 1..2 : own[t] = Steps(t, at[t])
AllEnd == Ended(1) /\ Ended(2)
WholeLoads == AllEnd => \A t \in 1..2 : own[t] = Pairs[pair].lines[t]
Export == (AllEnd /\ plan # <<>>) => CSVWrite("%1$s", <<ToJson([pair |-> pair, plan |-> plan])>>, IOEnv.OUT)
=============================================================================
