------------------------------ MODULE MC_Session ------------------------------
(***************************************************************************)
(* P17.  All sessions of N steps over a main map "m" (tileset "a",         *)
(* template "t" with tileset "b"), another map "o" that shares "a" and     *)
(* "b", the tileset "a" by itself and a world "w".  A library that keeps   *)
(* nothing between loads: result i is fixed by the versions it was loaded  *)
(* from, and no later step but a change to it makes it another.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, CSV, TLC
CONSTANTS N, OnlyM

Reach == [m |-> <<"m", "a", "t", "b">>, o |-> <<"a", "b">>, a |-> <<"a">>, w |-> <<"w">>]
Entries == DOMAIN Reach
Files == {"m", "a", "t", "b", "w"}
(* version 2 of a file is a broken one *)
Versions(f) == IF f \in {"m", "a", "t"} THEN 0..2 ELSE 0..1
Dirs == {"", "m"}

VARIABLES files, dir, held, hist
vars == <<files, dir, held, hist>>
Init == files = [f \in Files |-> 0] /\ dir = "" /\ held = <<>> /\ hist = <<>>
Seen(e) == [i \in DOMAIN Reach[e] |-> files[Reach[e][i]]]
Log(x) == hist' = Append(hist, x)
Load(e, via) == /\ held' = Append(held, [entry |-> e, seen |-> Seen(e), mutated |-> FALSE])
                /\ Log([op |-> "load", entry |-> e, via |-> via]) /\ UNCHANGED <<files, dir>>
Rewrite(f, v, stamp) == /\ v # files[f] /\ files' = [files EXCEPT ![f] = v]
                        /\ Log([op |-> "rewrite", file |-> f, v |-> v, stamp |-> stamp]) /\ UNCHANGED <<dir, held>>
Mutate(i, how) == /\ ~held[i].mutated /\ held' = [held EXCEPT ![i].mutated = TRUE]
                  /\ Log([op |-> "mutate", held |-> i - 1, how |-> how]) /\ UNCHANGED <<files, dir>>
Chdir(d) == d # dir /\ dir' = d /\ Log([op |-> "chdir", dir |-> d]) /\ UNCHANGED <<files, held>>
Next == /\ Len(hist) < N
        /\ \/ \E e \in Entries, via \in {"abs", "rel"} : Load(e, via)
           \/ Len(hist) < N - 1 /\ (\/ \E f \in Files : \E v \in Versions(f), st \in {"same", "new"} : Rewrite(f, v, st)
                                    \/ \E i \in DOMAIN held, how \in {"grow", "clear"} : Mutate(i, how)
                                    \/ \E d \in Dirs : Chdir(d))
Spec == Init /\ [][Next]_vars

HeldStays == [][\A i \in DOMAIN held : held'[i].entry = held[i].entry /\ held'[i].seen = held[i].seen]_vars
LoadsPresent == [][Len(held') > Len(held) => held'[Len(held')].seen = Seen(held'[Len(held')].entry)]_vars
Useful == Len(hist) = N /\ (OnlyM => \E i \in DOMAIN hist : hist[i].op = "mutate")
Export == Useful => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
