----------------------------- MODULE Signatures -----------------------------
(* Signatures are kept as byte strings; a type is a range [p, e) of one.      *)
(* NextType is the checker the decoder runs, IsType the grammar of D-Bus.     *)
EXTENDS Bytes

CONSTANTS MaxSigLen,         \* 255
          MaxArrayDepth, MaxStructDepth, MaxDictDepth    \* 32 each

\* y b n q i u x t d s o g h v
TypeCodes == {121, 98, 110, 113, 105, 117, 120, 116, 100, 115, 111, 103, 104, 118}

SigOk(p)  == [ok |-> TRUE, p |-> p, why |-> <<>>]
SigNo(w)  == [ok |-> FALSE, p |-> 0, why |-> w]

RECURSIVE NextType(_, _, _, _, _), StructRest(_, _, _, _, _)

\* The type that starts at position p of s, at the given nesting depths.
NextType(s, p, a, t, d) ==
  IF a > MaxArrayDepth THEN SigNo(<<"ArrayDepth", a>>)
  ELSE IF t > MaxStructDepth THEN SigNo(<<"StructDepth", t>>)
  ELSE IF d > MaxDictDepth THEN SigNo(<<"DictDepth", d>>)
  ELSE IF p > Len(s) THEN SigNo(<<"TooShort", Len(s)>>)
  ELSE LET c == s[p] IN
       IF c \in TypeCodes THEN SigOk(p + 1)
       ELSE IF c = 97 THEN NextType(s, p + 1, a + 1, t, d)
       ELSE IF c = 40 THEN StructRest(s, NextType(s, p + 1, a, t + 1, d), a, t + 1, d)
       ELSE IF c = 123 THEN
            LET key == NextType(s, p + 1, a, t, d + 1) IN
            IF ~key.ok THEN key
            ELSE LET val == NextType(s, key.p, a, t, d + 1) IN
                 IF ~val.ok THEN val
                 ELSE IF val.p > Len(s) THEN SigNo(<<"TooShort", Len(s)>>)
                 ELSE IF s[val.p] = 125 THEN SigOk(val.p + 1)
                 ELSE SigNo(<<"ClosingCurlyBracket", val.p - 1, s[val.p]>>)
       ELSE SigNo(<<"InvalidChar", c>>)

StructRest(s, r, a, t, d) ==
  IF ~r.ok THEN r
  ELSE IF r.p > Len(s) THEN SigNo(<<"TooShort", Len(s)>>)
  ELSE IF s[r.p] = 41 THEN SigOk(r.p + 1)
  ELSE StructRest(s, NextType(s, r.p, a, t, d), a, t, d)

\* End of the complete type at p of a valid signature.
TypeEnd(s, p) == IF s[p] \in TypeCodes THEN p + 1 ELSE NextType(s, p, 0, 0, 0).p

RECURSIVE SeqFrom(_, _)
SeqFrom(s, p) ==
  IF p > Len(s) THEN SigOk(p)
  ELSE LET r == NextType(s, p, 0, 0, 0) IN IF r.ok THEN SeqFrom(s, r.p) ELSE r

\* A whole signature: zero or more complete types.
CheckSig(s) ==
  IF Len(s) > MaxSigLen THEN SigNo(<<"ExceedMaximum", Len(s)>>) ELSE SeqFrom(s, 1)

\* Exactly one complete type.
CheckType(s) ==
  IF Len(s) > MaxSigLen THEN SigNo(<<"ExceedMaximum", Len(s)>>)
  ELSE LET r == NextType(s, 1, 0, 0, 0) IN
       IF ~r.ok THEN r ELSE IF r.p = Len(s) + 1 THEN r ELSE SigNo(<<"MultiplyTypes", -1>>)

ValidSig(s)  == CheckSig(s).ok
ValidType(s) == CheckType(s).ok

Alignment(c) ==
  CASE c \in {121, 118, 103} -> 1
    [] c \in {110, 113} -> 2
    [] c \in {98, 105, 117, 115, 111, 97, 104} -> 4
    [] c \in {120, 116, 100, 40, 123} -> 8

Width(c) ==
  CASE c = 121 -> 1 [] c \in {110, 113} -> 2 [] c \in {98, 105, 117, 104} -> 4
    [] c \in {120, 116, 100} -> 8

FixedCodes == {121, 98, 110, 113, 105, 117, 120, 116, 100, 104}

\* ---------------------------------------------------------------- grammar
\* The set of positions after one complete type starting at p (declarative,
\* as the context-free grammar, with the depth limits as a side condition).
RECURSIVE TypeEnds(_, _), TypesEnds(_, _)
TypeEnds(s, p) ==
  IF p > Len(s) THEN {}
  ELSE CASE s[p] \in TypeCodes -> {p + 1}
         [] s[p] = 97  -> TypeEnds(s, p + 1)
         [] s[p] = 40  -> {q + 1 : q \in {q \in TypesEnds(s, p + 1) : q <= Len(s) /\ s[q] = 41}}
         [] s[p] = 123 -> LET ks == TypeEnds(s, p + 1)
                              vs == UNION {TypeEnds(s, k) : k \in ks}
                          IN {q + 1 : q \in {q \in vs : q <= Len(s) /\ s[q] = 125}}
         [] OTHER -> {}
\* One or more types.
TypesEnds(s, p) ==
  LET one == TypeEnds(s, p) IN one \cup UNION {TypesEnds(s, q) : q \in one}

\* Nesting depth of bracket-like code c at position i: for '(' and '{' the
\* number of open ones, for 'a' the number of enclosing array types.
OpenAt(s, i, o, c) ==
  Cardinality({j \in 1..i : s[j] = o}) - Cardinality({j \in 1..(i - 1) : s[j] = c})
ArrAt(s, i) == Cardinality({j \in 1..i : s[j] = 97 /\ \E q \in TypeEnds(s, j) : q > i})

DepthOk(s) ==
  \A i \in 1..Len(s) :
     /\ s[i] = 40  => OpenAt(s, i, 40, 41) <= MaxStructDepth
     /\ s[i] = 123 => OpenAt(s, i, 123, 125) <= MaxDictDepth
     /\ s[i] = 97  => ArrAt(s, i) <= MaxArrayDepth

GrammarSig(s) ==
  /\ Len(s) <= MaxSigLen
  /\ s = <<>> \/ (Len(s) + 1) \in TypesEnds(s, 1)
  /\ DepthOk(s)

GrammarType(s) ==
  /\ Len(s) <= MaxSigLen
  /\ (Len(s) + 1) \in TypeEnds(s, 1)
  /\ DepthOk(s)
=============================================================================
