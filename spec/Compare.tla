------------------------------ MODULE Compare ------------------------------
(* When two things are the same, and what an order and a hash may be.         *)
EXTENDS Naturals, Integers, Sequences

\* ---------------------------------------------------------------- content
(* Values are lists of tokens; doubles (token d + 8 bytes, low byte first)    *)
(* are the same when they are numerically, so that a NaN is not even itself.  *)
Double(t) == Len(t) = 9 /\ t[1] = 100
Expo(t) == (t[9] % 128) * 16 + t[8] \div 16
Mant0(t) == t[8] % 16 = 0 /\ \A i \in 2..7 : t[i] = 0
NaN(t) == Double(t) /\ Expo(t) = 2047 /\ ~Mant0(t)
Zero(t) == Double(t) /\ Expo(t) = 0 /\ Mant0(t)
SameTok(s, t) == /\ ~NaN(s) /\ ~NaN(t)
                 /\ s = t \/ (Zero(s) /\ Zero(t))
SameToks(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : SameTok(s[i], t[i])
HasNaN(s) == \E i \in 1..Len(s) : NaN(s[i])

\* -------------------------------------------------------------- the answers
Less == -1   Same == 0   Greater == 1   No == 2
Flip(o) == IF o = No THEN No ELSE -o

(* eq[i][j] says whether i and j are equal, same[i][j] whether they ought to. *)
Equal(n, eq, same(_, _)) == \A i, j \in 1..n : eq[i][j] = IF same(i, j) THEN 1 ELSE 0
(* A (partial) order that knows the same equal things.                        *)
Ordered(n, ord, same(_, _), may(_, _)) ==
  /\ \A i, j \in 1..n :
       /\ ord[i][j] \in {Less, Same, Greater, No}
       /\ (ord[i][j] = Same) <=> same(i, j)
       /\ ord[j][i] = Flip(ord[i][j])
       /\ ord[i][j] = No => may(i, j)
  /\ \A i, j, k \in 1..n : (ord[i][j] = Less /\ ord[j][k] = Less) => ord[i][k] = Less
  /\ \A i, j, k \in 1..n : (ord[i][j] = Same) => ord[i][k] = ord[j][k]
(* h[i] is the first of those whose hash is that of i.                        *)
Hashed(n, h, same(_, _)) == \A i, j \in 1..n : same(i, j) => h[i] = h[j]
=============================================================================
