------------------------------- MODULE MC_Fds -------------------------------
(* The list of descriptors over all short bodies, and the patterns of long    *)
(* ones against it.                                                           *)
EXTENDS Fds, TLC
CONSTANTS MaxLen, MaxFd
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E f \in 0..MaxFd : s' = Append(s, f)

Indexes(x) == [i \in 1..Len(x) |-> IndexIn(x, i)]
Resolve == LET l == ListOf(s) IN \A i \in 1..Len(s) : l[IndexIn(s, i) + 1] = s[i]
Once    == LET l == ListOf(s) IN /\ \A i, j \in 1..Len(l) : l[i] = l[j] => i = j
                                 /\ {l[i] : i \in 1..Len(l)} = {s[i] : i \in 1..Len(s)}
\* A reader takes the whole list, no more and no less
All     == Taken(Indexes(s)) = Len(ListOf(s))
\* What is in the list stays where it is when more is written
Stays   == \A n \in 0..Len(s) : IsPrefix(ListOf(SubSeq(s, 1, n)), ListOf(s))
Pattern == \A p \in {"round", "back", "late"} : \A d \in 1..(MaxFd + 1) :
             LET n == Len(s)  x == [i \in 1..n |-> At(p, n, d, i - 1)] IN
             (p # "late" \/ d <= n) =>
             /\ Len(ListOf(x)) = Used(p, n, d)
             /\ \A i \in 1..n : IndexIn(x, i) = x[i]
=============================================================================
