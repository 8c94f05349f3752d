------------------------------- MODULE World --------------------------------
(***************************************************************************)
(* P15.  A world s lists                                                    *)
(*   s.maps       explicit maps [file: segments, w, h, x, y: tokens]        *)
(*   s.patterns   [atoms, mx, my: multipliers, ox, oy: <<>> or <<offset>>]  *)
(*   s.entries    the world's directory: [name: characters, kind]           *)
(* Numbers of patterns are given in quarters.  Names are sequences of       *)
(* characters, so that patterns can be matched here.                        *)
(***************************************************************************)
EXTENDS Clauses

Digits == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
             CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
               [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
IsDigit(c) == c \in DOMAIN Digits
RECURSIVE Value(_, _)
Value(cs, acc) == IF cs = <<>> THEN acc ELSE Value(Tail(cs), 10 * acc + Digits[Head(cs)])

StartsWith(n, c) == Len(n) >= Len(c) /\ SubSeq(n, 1, Len(c)) = c
Drop(n, k) == SubSeq(n, k + 1, Len(n))
RECURSIVE Run(_, _)          \* length of the run of characters of cs at the start of n
Run(n, cs) == IF n # <<>> /\ Head(n) \in cs THEN 1 + Run(Tail(n), cs) ELSE 0

(* Matching is that of a backtracking matcher started at the beginning of    *)
(* the name: the first match in order of preference, longest runs first.     *)
(* The result is <<>> or <<captures>>.                                       *)
RECURSIVE Match(_, _), Longest(_, _, _, _)
Longest(p, n, k, low) ==        \* give the first k characters to the run; then fewer
  IF k < low THEN <<>>
  ELSE LET r == Match(Tail(p), Drop(n, k))
       IN IF r # <<>>
          THEN IF Head(p).t \in {"num", "snum"} THEN << <<SubSeq(n, 1, k)>> \o r[1] >> ELSE r
          ELSE Longest(p, n, k - 1, low)
Match(p, n) ==
  IF p = <<>> THEN << <<>> >>
  ELSE LET a == Head(p) IN
       CASE a.t = "lit" -> IF StartsWith(n, a.c) THEN Match(Tail(p), Drop(n, Len(a.c))) ELSE <<>>
         [] a.t = "end" -> IF n = <<>> THEN Match(Tail(p), n) ELSE <<>>
         [] a.t = "num" -> Longest(p, n, Run(n, DOMAIN Digits), 1)
         [] a.t = "snum" -> LET sign == IF n # <<>> /\ Head(n) = "-" THEN 1 ELSE 0
                            IN Longest(p, n, sign + Run(Drop(n, sign), DOMAIN Digits), sign + 1)
         [] a.t = "zeros" -> Longest(p, n, Run(n, {"0"}), 0)
         [] a.t = "digits" -> Longest(p, n, Run(n, DOMAIN Digits), 1)
         [] a.t = "any" -> Longest(p, n, Len(n), 0)

CapValue(c) == IF Head(c) = "-" THEN -Value(Tail(c), 0) ELSE Value(c, 0)

Quarters(q) ==
  LET a == IF q < 0 THEN -q ELSE q
      frac == CASE a % 4 = 0 -> "" [] a % 4 = 1 -> ".25" [] a % 4 = 2 -> ".5" [] a % 4 = 3 -> ".75"
  IN "n:" \o (IF q < 0 THEN "-" ELSE "") \o ToString(a \div 4) \o frac
Off(o) == IF o = <<>> THEN 0 ELSE o[1]

RECURSIVE Text(_)
Text(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Text(Tail(cs))
InDir(s, segs) == AbsPath(s.mapdir \o segs)

Explicit(s) == [i \in DOMAIN s.maps |-> LET m == s.maps[i] IN
                  [file |-> InDir(s, m.file), width |-> m.w, height |-> m.h, x |-> m.x, y |-> m.y]]
IsFile(e) == e.kind \in {"file", "link"}   \* kinds: file, dir; link to a file; dirlink and dangling: to none
RECURSIVE FromEntries(_, _, _)
FromEntries(s, p, es) ==
  IF es = <<>> THEN <<>>
  ELSE LET e == Head(es)
           m == Match(p.atoms, e.name)
       IN (IF IsFile(e) /\ m # <<>>
           THEN << [file |-> InDir(s, <<Text(e.name)>>), width |-> Quarters(p.mx), height |-> Quarters(p.my),
                    x |-> Quarters(CapValue(m[1][1]) * p.mx + Off(p.ox)),
                    y |-> Quarters(CapValue(m[1][2]) * p.my + Off(p.oy))] >>
           ELSE <<>>) \o FromEntries(s, p, Tail(es))
WorldMaps(s) == Explicit(s) \o Flat([i \in DOMAIN s.patterns |-> FromEntries(s, s.patterns[i], s.entries)])

CountIn(x, q) == Cardinality({i \in DOMAIN q : q[i] = x})
WorldDiffs(s, obs) ==
  IF obs.out # "ok" THEN {D("outcome", "rejected", "load", "loads", obs.err)}
  ELSE LET want == WorldMaps(s)
           got == obs.world.maps
       IN {D("world", "maps", m.file, ToString(CountIn(m, want)) \o " of " \o ToString(m), ToString(CountIn(m, got)))
             : m \in {x \in Range(want) \cup Range(got) : CountIn(x, want) # CountIn(x, got)}}
          (* those named come first and in their order; a directory has none *)
          \cup (IF Len(got) = Len(want) /\ SubSeq(got, 1, Len(s.maps)) # Explicit(s)
                THEN {D("world", "order", "world", ToString(Explicit(s)), ToString(SubSeq(got, 1, Len(s.maps))))} ELSE {})
          \cup (IF obs.world.adjacent # s.adjacent /\ ~(s.adjacent = None /\ obs.world.adjacent = "b:false")
                THEN {D("world", "adjacent", "world", s.adjacent, obs.world.adjacent)} ELSE {})
=============================================================================
