------------------------------- MODULE T_Says -------------------------------
(* What errors print as.                                                      *)
(*   says st d t   d: the debug text, which holds the numbers the error       *)
(*                 carries; t: what it prints                                 *)
EXTENDS Bytes, TLC, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 64
VARIABLE c
Init == c \in {n \in 1..Len(Rec) : n <= Lanes}
Next == c + Lanes <= Len(Rec) /\ c' = c + Lanes
X == Rec[c]

Word(b) == b \in 48..57 \/ b \in 65..90 \/ b \in 97..122 \/ b = 95 \/ b >= 128
Numeral(w) == w # <<>> /\ \A i \in 1..Len(w) : w[i] \in 48..57
\* the numbers of a text in order, each with the byte before and where it is
S0 == [w |-> <<>>, b |-> 32, at |-> 1, out |-> <<>>]
Cut(m) == IF Numeral(m.w) THEN Append(m.out, [w |-> m.w, b |-> m.b, at |-> m.at]) ELSE m.out
Numbers(s) ==
  LET e == FoldLeft(LAMBDA m, x :
                      IF Word(x[1]) THEN [m EXCEPT !.w = Append(@, x[1])]
                      ELSE [w |-> <<>>, b |-> x[1], at |-> x[2] + 1, out |-> Cut(m)],
                    S0, [i \in 1..Len(s) |-> <<s[i], i>>])
  IN Cut(e)
Carried == SelectSeq(Numbers(X.d), LAMBDA n : n.b \in {40, 32, 91})
Printed == Numbers(X.t)
\* UTF-8 errors print their parts in another order
Anyhow(ns) == {ns[i].w : i \in 1..Len(ns)}
Within(a, b) ==
  LET k == FoldLeft(LAMBDA n, x : IF n < Len(a) /\ a[n + 1].w = x.w THEN n + 1 ELSE n, 0, b) IN k = Len(a)
OfUtf8(s) == LET p == B("Utf8Error") IN
  \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

\* decimal order, without leading zeros
Less(v, w) == Len(v) < Len(w) \/ (Len(v) = Len(w) /\ \E i \in 1..Len(v) : v[i] < w[i] /\ SubSeq(v, 1, i - 1) = SubSeq(w, 1, i - 1))
\* where the text says  N < M  or  N <= M  it is so
Claims ==
  \A i \in 1..(Len(Printed) - 1) :
    LET p == Printed[i]  q == Printed[i + 1]
        between == SubSeq(X.t, p.at + Len(p.w), q.at - 1) IN
    /\ between = B(" < ") => Less(p.w, q.w)
    /\ between = B(" <= ") => Less(p.w, q.w) \/ p.w = q.w
    /\ between = B(" != ") => p.w # q.w

P05 == X.st = "ok"
P23 == /\ X.st = "ok" => X.t # <<>>
       /\ X.st = "ok" => IF OfUtf8(X.d) THEN Anyhow(Carried) \subseteq Anyhow(Printed) ELSE Within(Carried, Printed)
       /\ X.st = "ok" => Claims
=============================================================================
