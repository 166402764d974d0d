------------------------------ MODULE MC_Match ------------------------------
(* Exhaustive: printing a list of rules and parsing it gives the list again,  *)
(* for every list of up to R rules whose values have up to N bytes over the   *)
(* special characters; and every text of up to T pieces that parses does so   *)
(* to rules whose printed form parses to the same rules.                      *)
EXTENDS MatchRules
CONSTANTS R, N, T
VARIABLES rs, open, s
Special == {BS, QU, CO, EQ, 120}
Piece == {B("arg0"), B("arg1path"), B("="), B(","), B("'"), B("\\"), B("/"), B("x")}
vars == <<rs, open, s>>
\* rs: the rules so far, the last one growing; s: a text
Init == rs = <<>> /\ open = 0 /\ s = <<>>
Grow == /\ s = <<>>
        /\ \/ /\ Len(rs) < R
              /\ \E n \in {<<48>>, <<54, 51>>} : rs' = Append(rs, Rule("arg", n, <<>>))
              /\ open' = N /\ s' = s
           \/ /\ rs # <<>> /\ open > 0
              /\ \E c \in Special : rs' = [rs EXCEPT ![Len(rs)].v = Append(@, c)]
              /\ open' = open - 1 /\ s' = s
Text == /\ rs = <<>> /\ open < T
        /\ \E x \in Piece : s' = s \o x
        /\ open' = open + 1 /\ rs' = rs
Next == Grow \/ Text
Back == s = <<>> =>
          /\ Parse(ShowAll(rs)) = [ok |-> TRUE, rules |-> rs]
          /\ \A i \in 1..Len(rs) : /\ Prints(Show(rs[i]), rs[i])
                                   /\ ParseOne(Show(rs[i])) = [ok |-> TRUE, r |-> <<rs[i]>>]
Again == LET p == Parse(s) IN
         p.ok => /\ \A i \in 1..Len(p.rules) : RuleOk(p.rules[i])
                 /\ Parse(ShowAll(p.rules)) = p
\* a text without quotes and backslashes means what it says
Plainly == LET p == Pieces(s) IN
           (s # <<>> /\ p.ok /\ \A i \in 1..Len(s) : s[i] \notin {BS, QU}) =>
              FoldLeft(LAMBDA acc, x : acc \o x.key \o <<EQ>> \o x.val \o <<CO>>, <<>>, p.out)
                = IF s[Len(s)] = CO THEN s ELSE Append(s, CO)
=============================================================================
