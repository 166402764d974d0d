------------------------------ MODULE MC_Paths ------------------------------
(* Exhaustive: paths as sequences of elements and as texts are the same thing,*)
(* and the operations on the texts are the ones on the sequences.             *)
EXTENDS Paths
CONSTANT N
VARIABLES p, q
Elements == {<<65>>, <<65, 48>>, <<48>>, <<95>>, <<65, 65>>}
Init == p = <<>> /\ q = <<>>
Next == \/ Len(p) < N /\ \E e \in Elements : p' = Append(p, e) /\ q' = q
        \/ Len(q) < N /\ \E e \in Elements : q' = Append(q, e) /\ p' = p
Texts == /\ Accepts("path", PathText(p)) /\ PathOf(PathText(p)) = p
         /\ (p = q) = (PathText(p) = PathText(q))
\* a proper prefix of the elements is a prefix of the text that ends at a separator
Under ==
  ProperPrefix(p, q) = LET a == PathText(p)  b == PathText(q) IN
                       a # b /\ StartsWith(b, IF p = <<>> THEN a ELSE Append(a, 47))
Strip == ProperPrefix(p, q) =>
           LET d == PathDo(q, [o |-> "strip", a |-> PathText(p)]) IN
           d.r = 1 /\ d.x # <<>> /\ p \o d.x[1] = q
Appends == \A e \in Elements : PathText(Append(p, e)) =
             (IF p = <<>> THEN <<47>> \o e ELSE PathText(p) \o <<47>> \o e)
=============================================================================
