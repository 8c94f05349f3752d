------------------------------- MODULE Session --------------------------------
(***************************************************************************)
(* P17.  Sessions: sequences of loads, rewrites of files, changes to       *)
(* earlier results and changes of directory, as recorded from the library. *)
(*                                                                         *)
(* The state is                                                            *)
(*    files  version of each file                                          *)
(*    dir    the current directory                                         *)
(*    held   for each load so far the digest of its result                 *)
(* A load must give what a process that loads for the first time gets from *)
(* the present versions of the files it reaches (r.fresh, by Key); nothing *)
(* but a change to a result itself may change it; and no two places of the *)
(* results may share anything that can be changed.                         *)
(***************************************************************************)
EXTENDS Clauses

RECURSIVE Vers(_, _)
Vers(files, fs) == IF fs = <<>> THEN "" ELSE ToString(files[Head(fs)]) \o Vers(files, Tail(fs))
Key(r, files, dir, st) ==
  st.entry \o (IF st.via = "rel" THEN " from " \o dir ELSE "") \o " " \o Vers(files, r.reach[st.entry])

(* one step of the session: the state after it, and what is wrong with it *)
StepHeld(r, held, st, files, dir) ==
  CASE st.op = "load" -> LET d == r.fresh[Key(r, files, dir, st)] IN Append(held, IF Pre(d, "raise") THEN "raised" ELSE d)
    [] st.op = "mutate" -> [held EXCEPT ![st.held + 1] = "gone"]
    [] OTHER -> held
Pos(i) == "step " \o ToString(i)
StepDiffs(r, i, files, dir, held) ==
  LET st == r.steps[i]
      o == r.obs.steps[i]
      after == StepHeld(r, held, st, files, dir)
  IN (IF st.op = "load" /\ o.digest # r.fresh[Key(r, files, dir, st)]
      THEN {D("session", "result", Pos(i), r.fresh[Key(r, files, dir, st)], o.digest)} ELSE {})
     \cup (IF st.op = "load" /\ o.moved THEN {D("session", "directory", Pos(i), "unchanged", "changed")} ELSE {})
     \cup (IF Len(o.held) # Len(after) THEN {D("session", "held", Pos(i), "as many", "other")}
           ELSE {D("session", "held", Pos(i) \o " result " \o ToString(k), after[k], o.held[k])
                   : k \in {j \in DOMAIN after : o.held[j] # after[j] /\ ~(j = Len(after) /\ st.op = "load")}})
     \cup {D("session", "shared", Pos(i), "nothing", o.shared[k]) : k \in DOMAIN o.shared}

RECURSIVE SessionFrom(_, _, _, _, _)
SessionFrom(r, i, files, dir, held) ==
  IF i > Len(r.steps) THEN {}
  ELSE LET st == r.steps[i]
           files2 == IF st.op = "rewrite" THEN [files EXCEPT ![st.file] = st.v] ELSE files
           dir2 == IF st.op = "chdir" THEN st.dir ELSE dir
       IN StepDiffs(r, i, files2, dir2, held)
          \cup SessionFrom(r, i + 1, files2, dir2, StepHeld(r, held, st, files2, dir2))
SessionDiffs(r) == SessionFrom(r, 1, r.init, "", <<>>)

(* Loads that ran interleaved: each must give what it gives alone. *)
SchedDiffs(r) ==
  {D("session", "thread", "load " \o ToString(i), r.alone[i], r.obs.digests[i])
     : i \in {k \in DOMAIN r.alone : r.obs.digests[k] # r.alone[k]}}
  \cup {D("session", "shared", "threads", "nothing", r.obs.shared[k]) : k \in DOMAIN r.obs.shared}
=============================================================================
