------------------------------ MODULE MC_Names ------------------------------
(* Exhaustive: for every kind of name the automaton accepts what the grammar  *)
(* of D-Bus generates, on every string of up to N bytes over one byte of each *)
(* class.  MaxNameLen is smaller than N, so that the length limit is crossed. *)
EXTENDS Paths
CONSTANT N
VARIABLE s
Alpha == {65, 95, 48, 45, 46, 58, 47, 32}
Init == s = <<>>
Next == Len(s) < N /\ \E b \in Alpha : s' = Append(s, b)
Agree == \A k \in Kinds : Accepts(k, s) = Grammar(k, s)
\* a verdict is a reason, and a rejecting automaton stays rejecting
Sound == \A k \in Kinds :
           LET v == Verdict(k, s) IN v # <<>> => Len(v) = 2 /\ v[1] \in
             Reasons \cup {"InvalidChar", "Empty", "Elements", "EndDot", "EndSlash", "ExceedMaximum"}
\* bus names are the unique and the well-known ones, and nothing is both
Buses == /\ Accepts("bus", s) = (Accepts("unique", s) \/ Accepts("wellknown", s))
         /\ ~(Accepts("unique", s) /\ Accepts("wellknown", s))
\* interface names are well-known names; elements of a path are what append takes
Chain == /\ Accepts("interface", s) => Accepts("wellknown", s)
         /\ Accepts("interface", s) = Accepts("error", s)
         /\ Accepts("path", <<47>> \o s) = (s = <<>> \/ \A i \in 1..Len(SplitAt(s, 47)) : ElementOk(SplitAt(s, 47)[i]))
=============================================================================
