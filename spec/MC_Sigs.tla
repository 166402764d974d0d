------------------------------ MODULE MC_Sigs -------------------------------
(* Exhaustive: the one-pass checker of signatures accepts what the grammar    *)
(* generates within the nesting limits, on every string of up to N bytes over *)
(* the brackets and two other types.                                          *)
EXTENDS Signatures
CONSTANT N
VARIABLE s
Alpha == {121, 118, 97, 40, 41, 123, 125, 32}
Init == s = <<>>
Next == Len(s) < N /\ \E b \in Alpha : s' = Append(s, b)
Agree == /\ ValidSig(s) = GrammarSig(s)
         /\ ValidType(s) = GrammarType(s)
\* a type is a signature; a signature falls apart into types in one way only
Split == /\ ValidType(s) => ValidSig(s)
         /\ ValidSig(s) => \A i \in 0..Len(s) :
              LET l == SubSeq(s, 1, i)  r == SubSeq(s, i + 1, Len(s)) IN ValidSig(l) => ValidSig(r)
         /\ Cardinality(TypeEnds(s, 1)) <= 1
=============================================================================
