------------------------------- MODULE MC_Color -------------------------------
(***************************************************************************)
(* P09.  Reading a color: the digits are read one after the other and each *)
(* pair becomes a channel; six digits are red, green, blue with full       *)
(* alpha; eight are alpha, red, green, blue.  Every value of every channel *)
(* is read, the other channels hold one of a few backgrounds, or some of   *)
(* them are equal to one another.                                          *)
(***************************************************************************)
EXTENDS Build
CONSTANTS Backs,             \* digit patterns of the other channels
          Eqs                \* which of red, green, blue (1, 2, 3) are equal
Lens == {6, 8}
VARIABLES n, chan, back, eq, digits, half, quad
vars == <<n, chan, back, eq, digits, half, quad>>

Names(k) == IF k = 6 THEN <<"r", "g", "b">> ELSE <<"a", "r", "g", "b">>
(* the channel the equal ones are copies of *)
Off(k) == (k \div 2) - 3
FirstOf(k, e) == Off(k) + CHOOSE c \in e : \A d \in e : c <= d
Init == /\ n \in Lens /\ chan \in 1..(n \div 2) /\ back \in Backs
        /\ eq \in Eqs \cup {{}} /\ (eq # {} => back = CHOOSE b \in Backs : TRUE)
        /\ (eq # {} => chan = FirstOf(n, eq))
        /\ digits = <<>> /\ half = <<>> /\ quad = [r |-> 0, g |-> 0, b |-> 0, a |-> 255]
Here == (Len(digits) \div 2) + 1
Free == Here = chan
Copied == eq # {} /\ Here # chan /\ Here - Off(n) \in eq
Read(d) == /\ Len(digits) < n
           /\ digits' = Append(digits, d)
           /\ IF half = <<>> THEN half' = <<d>> /\ UNCHANGED quad
              ELSE half' = <<>> /\ quad' = [quad EXCEPT ![Names(n)[Here]] = 16 * half[1] + d]
           /\ UNCHANGED <<n, chan, back, eq>>
Due == IF Copied THEN digits[2 * chan - 1 + (Len(digits) % 2)] ELSE back[(Len(digits) % Len(back)) + 1]
Next == \E d \in 0..15 : (Free \/ d = Due) /\ Read(d)
Spec == Init /\ [][Next]_vars

Done == Len(digits) = n
InRange == \A c \in DOMAIN quad : quad[c] \in 0..255
Denotes == Done => ColorQuad(digits) = <<quad.r, quad.g, quad.b, quad.a>>
Export == Done => Emit([hex |-> digits])
Equal == Done => \A c, d \in eq : SubSeq(digits, 2 * (c + Off(n)) - 1, 2 * (c + Off(n))) = SubSeq(digits, 2 * (d + Off(n)) - 1, 2 * (d + Off(n)))
QEqs == {{1, 2, 3}}
DEqs == {{1, 2, 3}, {1, 2}, {2, 3}, {1, 3}}
QBacks == {<<0, 0, 15, 15, 1, 14, 7>>}
DBacks == {<<0>>, <<15>>, <<1, 2, 3, 4, 5>>, <<10, 0, 0, 11, 12>>}
=============================================================================
