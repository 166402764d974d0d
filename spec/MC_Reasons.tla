----------------------------- MODULE MC_Reasons -----------------------------
(* Exhaustive: the reasons.  On every string of up to N bytes over the        *)
(* classes of names and the characters of signatures:                         *)
(*   - the reason the automaton stops with is a true one;                     *)
(*   - no reason is true of a valid name, type or signature;                  *)
(*   - every name and signature that is refused has a true reason.            *)
EXTENDS Reasons
CONSTANT N
VARIABLES s, g          \* g: a signature
NameAlpha == {65, 48, 45, 46, 58, 47, 32}
SigAlpha == {121, 97, 40, 41, 123, 125, 32}
Init == s = <<>> /\ g \in BOOLEAN
Next == Len(s) < N /\ \E b \in (IF g THEN SigAlpha ELSE NameAlpha) : s' = Append(s, b) /\ g' = g

Claim(v) == IF v[2] = -1 THEN <<v[1]>> ELSE W1(v[1], v[2])
NameClaims == {<<x>> : x \in Reasons \cup {"Empty", "Elements", "EndDot", "EndSlash"}}
              \cup {W1("InvalidChar", b) : b \in NameAlpha} \cup {W1("ExceedMaximum", n) : n \in 0..N}
NameReason == ~g => \A k \in Kinds :
  LET v == Verdict(k, s)
      cl == IF k = "bus" THEN <<BusWrapper(s)>> \o Claim(v) ELSE Claim(v) IN
  IF v # <<>> THEN NameTrue(k, s, cl)
  ELSE \A x \in NameClaims : ~NameTrue(k, s, IF k = "bus" THEN <<BusWrapper(s)>> \o x ELSE x)
SigClaims == {<<"MultiplyTypes">>}
             \cup {W1(x, n) : x \in {"ExceedMaximum", "ArrayDepth", "StructDepth", "DictDepth"}, n \in 0..(N + 1)}
             \cup {W1("InvalidChar", b) : b \in SigAlpha}
             \cup {<<"TooShort", ToString(n), ToString(o)>> : n, o \in 0..(N + 1)}
             \cup {<<"ClosingCurlyBracket", ToString(n), ToString(b)>> : n \in 0..N, b \in SigAlpha}
SigReason == g => \A one \in BOOLEAN :
  LET c == IF one THEN CheckType(s) ELSE CheckSig(s)
      w == IF c.ok THEN <<>> ELSE c.why
      cl == CASE w = <<>> -> <<>>
              [] w[1] = "MultiplyTypes" -> <<"MultiplyTypes">>
              [] w[1] = "TooShort" -> <<"TooShort", ToString(w[2]), ToString(w[2] + 1)>>
              [] OTHER -> <<w[1]>> \o Words(Tail(w)) IN
  IF c.ok THEN \A x \in SigClaims : ~SigTrue(s, one, FALSE, x)
  ELSE SigTrue(s, one, FALSE, cl)
=============================================================================
