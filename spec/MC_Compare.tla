----------------------------- MODULE MC_Compare -----------------------------
(* Exhaustive: the demands on comparisons.  For every list of up to three     *)
(* values and every table of answers:                                         *)
(*   - being the same is symmetric and transitive, and reflexive unless there *)
(*     is a NaN in it;                                                        *)
(*   - the demands can be met: comparing as sequences of keys does;           *)
(*   - they determine as much as they should: of three different things there *)
(*     are 6 orders and 19 partial orders.                                    *)
EXTENDS Compare, FiniteSets
VARIABLES vs, ord
D(s, e, m) == <<100, m, 0, 0, 0, 0, 0, e % 16 * 16, s * 128 + e \div 16>>
NaN1 == D(0, 2047, 1)
Toks1 == {<<121, 1>>, <<121, 2>>, D(0, 0, 0), D(1, 0, 0), D(0, 1023, 0), D(0, 2047, 0), NaN1, D(1, 2047, 255)}
Vals == {<<>>} \cup {<<t>> : t \in Toks1} \cup {<<<<121, 1>>, t>> : t \in {D(0, 0, 0), D(1, 0, 0), NaN1}}
Init == vs \in [1..3 -> Vals] /\ ord = <<>>
\* the answers, one row after the other, to three different things
Rows == [1..3 -> {Less, Same, Greater, No}]
Next == /\ vs = [i \in 1..3 |-> <<<<121, 1>>>>] /\ Len(ord) < 3
        /\ \E r \in Rows : ord' = Append(ord, r)
        /\ vs' = vs
Relation == /\ \A i, j \in 1..3 : SameToks(vs[i], vs[j]) = SameToks(vs[j], vs[i])
            /\ (SameToks(vs[1], vs[2]) /\ SameToks(vs[2], vs[3])) => SameToks(vs[1], vs[3])
            /\ \A i \in 1..3 : SameToks(vs[i], vs[i]) = ~HasNaN(vs[i])
\* a key for every token: its bytes, both zeros as one
Key(t) == IF Zero(t) THEN D(0, 0, 0) ELSE t
RECURSIVE Lex(_, _)
Lex(s, t) ==
  IF s = <<>> \/ t = <<>> THEN (IF s = t THEN Same ELSE IF s = <<>> THEN Less ELSE Greater)
  ELSE IF s[1] = t[1] THEN Lex(Tail(s), Tail(t)) ELSE IF s[1] < t[1] THEN Less ELSE Greater
RECURSIVE Vals2(_, _)
Vals2(s, t) ==
  IF s = <<>> \/ t = <<>> THEN Lex([i \in 1..Len(s) |-> 0], [i \in 1..Len(t) |-> 0])
  ELSE IF NaN(s[1]) \/ NaN(t[1]) THEN No
  ELSE LET o == Lex(Key(s[1]), Key(t[1])) IN IF o = Same THEN Vals2(Tail(s), Tail(t)) ELSE o
Table == [i \in 1..3 |-> [j \in 1..3 |-> Vals2(vs[i], vs[j])]]
S(i, j) == SameToks(vs[i], vs[j])
May(i, j) == HasNaN(vs[i]) \/ HasNaN(vs[j])
Met == ord = <<>> => Ordered(3, Table, S, May)
\* three different things: 1, 2 and 3 themselves
Diff(i, j) == i = j
Never(i, j) == FALSE
Ever(i, j) == TRUE
Strict(r) == /\ \A i, j \in 1..3 : <<i, j>> \in r => <<j, i>> \notin r
             /\ \A i, j, k \in 1..3 : (<<i, j>> \in r /\ <<j, k>> \in r) => <<i, k>> \in r
Below3 == {<<i, j>> \in (1..3) \X (1..3) : ord[i][j] = Less}
Coherent == \A i, j \in 1..3 : ord[i][j] = IF i = j THEN Same ELSE IF <<i, j>> \in Below3 THEN Less
                                           ELSE IF <<j, i>> \in Below3 THEN Greater ELSE No
Exactly == Len(ord) = 3 =>
  /\ Ordered(3, ord, Diff, Ever) = (Coherent /\ Strict(Below3))
  /\ Ordered(3, ord, Diff, Never) = (Coherent /\ Strict(Below3) /\ Cardinality(Below3) = 3)
=============================================================================
