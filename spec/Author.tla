------------------------------- MODULE Author -------------------------------
(* Writes down messages: a body of every signature in Sigs, filled with       *)
(* values one token at a time.  The stack holds what is still to be written:  *)
(*   [t "seq", sig, p, e, cl]      the types sig[p..e-1], then the token cl    *)
(*   [t "arr", sig, p, e, n]       elements of type sig[p..e-1], n so far     *)
EXTENDS Values
CONSTANTS MaxElems,         \* elements of an array
          MaxToks,          \* from this length on a message is brought to an end
          MaxVariants,      \* variants inside variants
          Basic(_),         \* tokens of a basic type
          VariantSigs(_)    \* types of what is in a variant (with variants, or not)
ASeq(sig, p, e, cl, vd) == [t |-> "seq", sig |-> sig, p |-> p, e |-> e, cl |-> cl, n |-> 0, vd |-> vd]
AArr(sig, p, e, vd) == [t |-> "arr", sig |-> sig, p |-> p, e |-> e, cl |-> 93, n |-> 0, vd |-> vd]
Start(sig) == [toks |-> <<>>, stk |-> <<ASeq(sig, 1, Len(sig) + 1, 0, 0)>>]
Written(a) == a.stk = <<>>

\* What can be written next, given the choice of values Pick(set).
Following(a, Pick(_)) ==
  LET f == Last(a.stk)  below == Front(a.stk)
      c == f.sig[f.p]
      adv == IF f.t = "seq" THEN Append(below, [f EXCEPT !.p = TypeEnd(f.sig, f.p)])
             ELSE Append(below, [f EXCEPT !.n = @ + 1])
      Emit(tok, stk) == [toks |-> Append(a.toks, tok), stk |-> stk]
      value ==
        IF c = 97 THEN LET e == TypeEnd(f.sig, f.p + 1) IN
             {Emit(<<97>> \o SubSeq(f.sig, f.p + 1, e - 1), Append(adv, AArr(f.sig, f.p + 1, e, f.vd)))}
        ELSE IF c \in {40, 123} THEN LET e == TypeEnd(f.sig, f.p) IN
             {Emit(<<c>>, Append(adv, ASeq(f.sig, f.p + 1, e - 1, IF c = 40 THEN 41 ELSE 125, f.vd)))}
        ELSE IF c = 118 THEN
             {Emit(<<118>> \o s, Append(adv, ASeq(s, 1, Len(s) + 1, 0, f.vd + 1))) :
                 s \in Pick(VariantSigs(f.vd + 1 < MaxVariants /\ Len(a.toks) < MaxToks))}
        ELSE {Emit(x, adv) : x \in Pick(Basic(c))}
  IN IF f.t = "seq"
     THEN IF f.p = f.e
          THEN {IF f.cl = 0 THEN [a EXCEPT !.stk = below] ELSE Emit(<<f.cl>>, below)}
          ELSE value
     ELSE {Emit(<<93>>, below)} \cup (IF f.n < MaxElems /\ Len(a.toks) < MaxToks THEN value ELSE {})
=============================================================================
