------------------------------ MODULE MC_Bytes ------------------------------
(* Exhaustive: the two characterisations of UTF-8 agree on every string of   *)
(* up to N bytes over the boundary bytes of the table.                       *)
EXTENDS Bytes
CONSTANT N
VARIABLE s
Alpha == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239,
          240, 241, 243, 244, 245, 255}
Init == s = <<>>
Next == Len(s) < N /\ \E b \in Alpha : s' = Append(s, b)
Agree == Utf8(s) = Utf8Scan(s, 1)
=============================================================================
