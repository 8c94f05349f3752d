------------------------------- MODULE MC_Data -------------------------------
(***************************************************************************)
(* P03.  Decoding the data of a finite tile layer.  The reader consumes    *)
(* the stored bytes one by one (after base64 and decompression), gathers   *)
(* four of them to a 32-bit id, least significant byte first, and cuts the *)
(* ids into rows.  Ids are kept as <<top 4 bits, lower 28 bits>>.          *)
(***************************************************************************)
EXTENDS Build
CONSTANTS Bytes,             \* byte values of the one-cell grids
          Alpha,             \* cells of the larger grids, as four bytes each
          Sizes              \* sizes of the larger grids: <<w, h>>

VARIABLES size, bytes, acc, cnt, words, rows
vars == <<size, bytes, acc, cnt, words, rows>>

Total == size[1] * size[2]
CurCell == SubSeq(bytes, Len(bytes) - cnt + 1, Len(bytes))   \* the bytes of the cell being read
NextBytes == IF Total = 1 THEN Bytes
             ELSE {a[cnt + 1] : a \in {x \in Alpha : SubSeq(x, 1, cnt) = CurCell}}
Add(p, b, k) ==
  CASE k = 0 -> <<p[1], p[2] + b>>
    [] k = 1 -> <<p[1], p[2] + 256 * b>>
    [] k = 2 -> <<p[1], p[2] + 65536 * b>>
    [] k = 3 -> <<p[1] + (b \div 16), p[2] + 16777216 * (b % 16)>>
Push(w) == LET r == [rows EXCEPT ![Len(rows)] = Append(@, w)]
               n == Len(words) + 1
           IN IF n % size[1] = 0 /\ n < Total THEN Append(r, <<>>) ELSE r

Init == /\ size \in Sizes \cup {<<1, 1>>}
        /\ bytes = <<>> /\ acc = <<0, 0>> /\ cnt = 0 /\ words = <<>> /\ rows = << <<>> >>
Read(b) == /\ Len(words) < Total
           /\ bytes' = Append(bytes, b)
           /\ IF cnt < 3
              THEN acc' = Add(acc, b, cnt) /\ cnt' = cnt + 1 /\ UNCHANGED <<words, rows>>
              ELSE LET w == Add(acc, b, 3) IN
                   /\ words' = Append(words, w) /\ rows' = Push(w)
                   /\ acc' = <<0, 0>> /\ cnt' = 0
           /\ UNCHANGED size
Next == \E b \in NextBytes : Read(b)
Spec == Init /\ [][Next]_vars

Done == Len(words) = Total
(* the gathered ids are the little-endian words of the bytes read *)
Gathered == words = Words(bytes)
(* no row is longer than the layer is wide, only the last may be shorter *)
RowShape == \A i \in DOMAIN rows : /\ Len(rows[i]) <= size[1]
                                   /\ (i < Len(rows) => Len(rows[i]) = size[1])
RowMajor == Flat(rows) = words
Whole == Done => rows = Rows(Words(bytes), size[1], size[2])
InRange == \A i \in DOMAIN words : words[i][1] \in 0..15 /\ words[i][2] \in 0..268435455

Doc == Scenario("tmx", MapOf(<< [TileL("s:L", size[1], size[2], words) EXCEPT !.enc = "csv"] >>), NoAttrs, NoAttrs)
Export == Done => Emit(Doc)

QSizes == {<<2, 1>>, <<1, 2>>, <<3, 1>>, <<1, 3>>, <<2, 2>>}
DSizes == QSizes \cup {<<2, 3>>, <<3, 2>>, <<4, 1>>, <<1, 4>>, <<5, 1>>}
QAlpha == {<<1, 0, 0, 0>>, <<255, 0, 1, 128>>, <<0, 0, 0, 0>>}
DAlpha == {<<1, 0, 0, 0>>, <<254, 255, 255, 255>>, <<0, 0, 0, 64>>}
QBytes == {0, 1, 128, 255}
DBytes == {0, 1, 15, 16, 127, 128, 254, 255}
=============================================================================
