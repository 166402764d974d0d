------------------------------- MODULE T_Fds --------------------------------
(* Validates recordings about messages with many descriptors.                 *)
(*   mfd  pat n d shape le extra r                                            *)
(* The body has n descriptors, the i-th of them number At(pat, n, d, i), which*)
(* is descriptor 3 * number + 5.  Encoded, then decoded with the descriptors  *)
(* that came out and extra ones behind.                                       *)
EXTENDS Fds, TLC, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 64
VARIABLE c
Init == c \in {n \in 1..Len(Rec) : n <= Lanes}
Next == c + Lanes <= Len(Rec) /\ c' = c + Lanes
X == Rec[c]

Fd(k) == 3 * k + 5
Num(i) == At(X.pat, X.n, X.d, i)
Count == Used(X.pat, X.n, X.d)

P05 == X.r.st # "panic" /\ (X.r.st = "ok" => X.r.d # "panic")
\* The list, the indexes in the bytes, and the values read back
P08 == /\ X.r.st = "ok"
       /\ X.r.fds = Count
       /\ \A i \in 1..Len(X.r.list) : X.r.list[i] = <<X.r.list[i][1], Fd(X.r.list[i][1])>>
       /\ \A i \in 1..Len(X.r.words) : X.r.words[i] = <<X.r.words[i][1], Num(X.r.words[i][1])>>
       /\ X.r.d = "ok"
       /\ X.r.vals = X.n
       /\ \A i \in 1..Len(X.r.read) : X.r.read[i] = <<X.r.read[i][1], Fd(Num(X.r.read[i][1]))>>
\* The count in the header says how many
P20 == /\ X.r.st = "ok" /\ X.r.d = "ok"
       /\ X.r.count = (IF X.n = 0 THEN <<>> ELSE <<Count>>)
\* The next message finds its descriptors
P22 == /\ X.r.st = "ok" /\ X.r.d = "ok"
       /\ X.r.used = Count
=============================================================================
