------------------------------- MODULE Bytes -------------------------------
(* Bytes are naturals 0..255, byte strings are sequences of them.  TLC has    *)
(* 32-bit integers only, so wider numbers stay byte strings in little-endian  *)
(* order; U32 maps a 4-byte length to a number, everything from 2^30 up to    *)
(* the sentinel Huge (larger than every limit and every buffer used here).    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Printable ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == [ch \in {SubSeq(Printable, i, i) : i \in 1..95} |->
             31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = ch)]

\* The ASCII bytes of a TLA+ string.
B(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

Byte == 0..255

Huge == 1073741824

U32(b) == IF b[4] >= 64 THEN Huge
          ELSE b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]

LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>

\* The n bytes at (0-based) offset off, in wire order.
Slice(buf, off, n) == SubSeq(buf, off + 1, off + n)

\* The same, normalised to little-endian order.
Num(buf, off, n, le) == IF le THEN Slice(buf, off, n) ELSE Reverse(Slice(buf, off, n))

AlignUp(off, a) == ((off + a - 1) \div a) * a

Zeros(n) == [i \in 1..n |-> 0]

StartsWith(s, pre) == Len(pre) <= Len(s) /\ SubSeq(s, 1, Len(pre)) = pre
EndsWith(s, suf)   == Len(suf) <= Len(s) /\ SubSeq(s, Len(s) - Len(suf) + 1, Len(s)) = suf
From(s, i) == SubSeq(s, i, Len(s))

IsDigit(c) == 48 <= c /\ c <= 57
IsAlpha(c) == (65 <= c /\ c <= 90) \/ (97 <= c /\ c <= 122)

(***************************************************************************)
(* UTF-8 (Unicode, table 3-7).  A local characterisation: every lead byte is *)
(* followed by its continuation bytes, every continuation byte belongs to a   *)
(* lead byte.  Utf8Scan is the usual scanner; MC_Bytes checks the agreement.  *)
(***************************************************************************)
IsCont(b) == 128 <= b /\ b <= 191
At(s, i) == IF 1 <= i /\ i <= Len(s) THEN s[i] ELSE 0
\* Number of continuation bytes the byte calls for, as far as it can be told.
Follow(b) == IF b <= 127 THEN 0
             ELSE IF 194 <= b /\ b <= 223 THEN 1
             ELSE IF 224 <= b /\ b <= 239 THEN 2
             ELSE IF 240 <= b /\ b <= 244 THEN 3
             ELSE 0
\* Bounds of the byte after the lead byte b.
Lo(b) == IF b = 224 THEN 160 ELSE IF b = 240 THEN 144 ELSE 128
Hi(b) == IF b = 237 THEN 159 ELSE IF b = 244 THEN 143 ELSE 191

Ascii(s) == \A i \in 1..Len(s) : s[i] <= 127

Utf8(s) ==
  \/ Ascii(s)
  \/ \A i \in 1..Len(s) :
       LET b == s[i] IN
       CASE b <= 127 -> TRUE
         [] IsCont(b) ->
              \/ Follow(At(s, i - 1)) >= 1
              \/ IsCont(At(s, i - 1)) /\ Follow(At(s, i - 2)) >= 2
              \/ IsCont(At(s, i - 1)) /\ IsCont(At(s, i - 2)) /\ Follow(At(s, i - 3)) >= 3
         [] b \in {192, 193} \/ b >= 245 -> FALSE
         [] OTHER ->
              /\ i + Follow(b) <= Len(s)
              /\ Lo(b) <= s[i + 1] /\ s[i + 1] <= Hi(b)
              /\ \A j \in (i + 1)..(i + Follow(b)) : IsCont(s[j])

RECURSIVE Utf8Scan(_, _)
Utf8Scan(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET b == s[i]
           C(j) == j <= Len(s) /\ 128 <= s[j] /\ s[j] <= 191
           R(j, lo, hi) == j <= Len(s) /\ lo <= s[j] /\ s[j] <= hi
       IN IF b <= 127 THEN Utf8Scan(s, i + 1)
          ELSE IF b < 194 THEN FALSE
          ELSE IF b <= 223 THEN C(i + 1) /\ Utf8Scan(s, i + 2)
          ELSE IF b <= 239 THEN
                 /\ R(i + 1, IF b = 224 THEN 160 ELSE 128, IF b = 237 THEN 159 ELSE 191)
                 /\ C(i + 2)
                 /\ Utf8Scan(s, i + 3)
          ELSE IF b <= 244 THEN
                 /\ R(i + 1, IF b = 240 THEN 144 ELSE 128, IF b = 244 THEN 143 ELSE 191)
                 /\ C(i + 2) /\ C(i + 3)
                 /\ Utf8Scan(s, i + 4)
          ELSE FALSE
=============================================================================
