------------------------------- MODULE MC_World -------------------------------
(***************************************************************************)
(* P15.  Loading a world: the explicit maps are listed, then each pattern  *)
(* is tried on each entry of the directory, in whatever order the system   *)
(* lists them.  At the end exactly the maps of the world are listed.       *)
(***************************************************************************)
EXTENDS World, Json, IOUtils, CSV, SequencesExt, FiniteSetsExt
CONSTANTS MaxMaps, MaxPats, MaxEntries

Lit(c) == [t |-> "lit", c |-> c]
A(t) == [t |-> t, c |-> <<>>]
X == <<"x">>
Dot == <<".", "t", "m", "x">>
Patterns == {
  [atoms |-> <<Lit(<<"m">>), A("num"), Lit(X), A("num"), Lit(Dot)>>, mx |-> 64, my |-> 32, ox |-> <<>>, oy |-> <<>>],
  [atoms |-> <<Lit(<<"m">>), A("snum"), Lit(X), A("snum"), Lit(Dot), A("end")>>, mx |-> 6, my |-> -8, ox |-> <<20>>, oy |-> <<>>],
  [atoms |-> <<A("any"), Lit(<<"_">>), A("num"), Lit(<<"-">>), A("num")>>, mx |-> 400, my |-> 4, ox |-> <<-10>>, oy |-> <<3>>],
  [atoms |-> <<Lit(<<"m">>), A("zeros"), A("num"), A("any"), A("num"), A("any")>>, mx |-> 4, my |-> 0, ox |-> <<0>>, oy |-> <<7>>] }
Chars(w) == w   \* names are sequences of characters
F(n) == [name |-> n, kind |-> "file"]
Entries0 == {
  F(<<"m", "1", "x", "2", ".", "t", "m", "x">>), F(<<"m", "1", "0", "x", "0", ".", "t", "m", "x">>),
  F(<<"m", "-", "3", "x", "4", ".", "t", "m", "x">>), F(<<"a", "m", "1", "x", "2", ".", "t", "m", "x">>),
  F(<<"m", "1", "x", "2", ".", "t", "m", "x", ".", "b", "a", "k">>),
  [name |-> <<"m", "5", "x", "6", ".", "t", "m", "x">>, kind |-> "dir"],
  F(<<"_", "7", "-", "8">>), F(<<"z", "_", "_", "0", "0", "9", "-", "1", "1">>), F(<<"M", "1", "x", "2", ".", "t", "m", "x">>),
  F(<<"m", "1", "x", ".", "t", "m", "x">>), F(<<"m", "1", "x", "2", "t", "t", "m", "x">>),
  [name |-> <<"_", "1", "-", "2">>, kind |-> "dir"],
  [name |-> <<"m", "7", "x", "8", ".", "t", "m", "x">>, kind |-> "link"], [name |-> <<"_", "3", "-", "4">>, kind |-> "dangling"] }
Explicit0 == {
  [file |-> <<"a.tmx">>, w |-> "n:64", h |-> "n:32", x |-> "n:0", y |-> "n:-16"],
  [file |-> <<"sub", "b.tmj">>, w |-> "n:1.5", h |-> "n:0", x |-> "n:-0.25", y |-> "n:7"],
  [file |-> <<"..", "c.tmx">>, w |-> "n:8", h |-> "n:9", x |-> "n:10", y |-> "n:11"] }

VARIABLES s, todo, found
vars == <<s, todo, found>>
SeqsUpTo(St, n) == {q \in UNION {[1..k -> St] : k \in 0..n} : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
SetsUpTo(St, n) == {x \in SUBSET St : Cardinality(x) <= n}
Init ==
  /\ \E ms \in SeqsUpTo(Explicit0, MaxMaps), ps \in SeqsUpTo(Patterns, MaxPats), es \in SetsUpTo(Entries0, MaxEntries), a \in {None, "b:true", "b:false"} :
       /\ (a # "b:true" => Cardinality(es) <= 1)
       /\ s = [call |-> "world", mapdir |-> <<"w", "d%20d">>, maps |-> ms, patterns |-> ps, entries |-> SetToSeq(es), adjacent |-> a]
  /\ todo = (DOMAIN s.patterns) \X (DOMAIN s.entries)
  /\ found = Explicit(s)
Scan(p, e) == /\ todo' = todo \ {<<p, e>>}
              /\ found' = found \o FromEntries(s, s.patterns[p], <<s.entries[e]>>)
              /\ UNCHANGED s
Next == \E t \in todo : Scan(t[1], t[2])
Spec == Init /\ [][Next]_vars
ScanView == <<s, todo, {<<found[i], CountIn(found[i], found)>> : i \in DOMAIN found}>>

Whole == (todo = {}) => LET want == WorldMaps(s)
                        IN /\ Len(found) = Len(want)
                           /\ \A i \in DOMAIN want : CountIn(want[i], want) = CountIn(want[i], found)
NoDirs == \A i \in DOMAIN s.entries : s.entries[i].kind \in {"dir", "dirlink", "dangling"} =>
            \A j \in DOMAIN found : found[j].file # InDir(s, <<Text(s.entries[i].name)>>)
ExplicitKept == IsPrefix(Explicit(s), found)
Export == (todo = (DOMAIN s.patterns) \X (DOMAIN s.entries)) => CSVWrite("%1$s", <<ToJson(s)>>, IOEnv.OUT)
=============================================================================
