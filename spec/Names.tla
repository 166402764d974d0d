------------------------------- MODULE Names -------------------------------
(* The name syntaxes of D-Bus.  Every syntax is given twice:                  *)
(*   - declaratively, the way the D-Bus specification states it (elements     *)
(*     separated by dots, ...)                                                *)
(*   - as the finite automaton a one-pass checker runs.                       *)
(* MC_Names checks that the two agree; the conformance checks use the         *)
(* automaton (Accepts), one step per byte.                                    *)
EXTENDS Bytes

CONSTANT MaxNameLen          \* 255; small in the exhaustive models

Kinds == {"interface", "error", "member", "wellknown", "unique", "bus", "path"}

\* ----------------------------------------------------------------- classes
\* A = letter or underscore, D = digit, H = hyphen, P = dot, C = colon,
\* S = slash, X = anything else
ClassTable ==
  [c \in Byte |-> IF IsAlpha(c) \/ c = 95 THEN "A"
                  ELSE IF IsDigit(c) THEN "D"
                  ELSE IF c = 45 THEN "H"
                  ELSE IF c = 46 THEN "P"
                  ELSE IF c = 58 THEN "C"
                  ELSE IF c = 47 THEN "S"
                  ELSE "X"]
Class(c) == ClassTable[c]

\* --------------------------------------------------------------- automata
\* Automaton states: "init" first byte, "colon" after the leading ':',
\* "first" inside the first element, "begin" first byte of a later element,
\* "elem" inside a later element, "root" after the leading '/'.
\* A move to an error yields the reason instead of a state.
Reasons == {"InvalidChar", "BeginDigit", "BeginDot", "BeginColon",
            "ElementBeginDigit", "ElementBeginDot", "Colon",
            "BeginAlphanumericAndUnderscoreAndHyphen", "ElementEmtpy"}
IsRej(q) == q \in Reasons

\* interface and error names
MoveDotted(q, k) ==
  CASE k \notin {"A", "D", "P"} -> "InvalidChar"
    [] q \in {"init", "begin"} /\ k = "A" -> IF q = "init" THEN "first" ELSE "elem"
    [] q \in {"init", "begin"} /\ k = "D" -> "ElementBeginDigit"
    [] q \in {"init", "begin"} /\ k = "P" -> "ElementBeginDot"
    [] q \in {"first", "elem"} /\ k = "P" -> "begin"
    [] OTHER -> q

MoveMember(q, k) ==
  CASE k \notin {"A", "D"} -> "InvalidChar"
    [] q = "init" /\ k = "D" -> "BeginDigit"
    [] OTHER -> "elem"

MoveWellKnown(q, k) ==
  CASE k \notin {"A", "D", "H", "P"} -> "InvalidChar"
    [] q = "init"  /\ k = "D" -> "BeginDigit"
    [] q = "init"  /\ k = "P" -> "BeginDot"
    [] q = "init"             -> "first"
    [] q = "begin" /\ k = "D" -> "ElementBeginDigit"
    [] q = "begin" /\ k = "P" -> "ElementBeginDot"
    [] q = "begin"            -> "elem"
    [] k = "P"                -> "begin"
    [] OTHER                  -> q

MoveUnique(q, k) ==
  CASE k \notin {"A", "D", "H", "P", "C"} -> "InvalidChar"
    [] q = "init"  /\ k = "C" -> "colon"
    [] q = "init"  /\ k = "P" -> "BeginDot"
    [] q = "init"             -> "BeginColon"
    [] k = "C"                -> "Colon"
    [] q \in {"colon", "begin"} /\ k = "P" -> "ElementBeginDot"
    [] q = "colon"            -> "first"
    [] q = "begin"            -> "elem"
    [] k = "P"                -> "begin"
    [] OTHER                  -> q

MovePath(q, k) ==
  CASE k \notin {"A", "D", "S"} -> "InvalidChar"
    [] q = "init" /\ k = "S" -> "root"
    [] q = "init"            -> "BeginAlphanumericAndUnderscoreAndHyphen"
    [] q \in {"root", "begin"} /\ k = "S" -> "ElementEmtpy"
    [] q = "elem" /\ k = "S" -> "begin"
    [] OTHER                 -> "elem"

Move(kind, q, k) ==
  CASE kind \in {"interface", "error"} -> MoveDotted(q, k)
    [] kind = "member"    -> MoveMember(q, k)
    [] kind = "wellknown" -> MoveWellKnown(q, k)
    [] kind = "unique"    -> MoveUnique(q, k)
    [] kind = "path"      -> MovePath(q, k)

Final(kind, q) ==
  CASE kind = "path"   -> q \in {"root", "elem"}
    [] OTHER           -> q = "elem"

\* Why a name that ends in the (non-final) state q is rejected.
EndReason(kind, q) ==
  CASE q = "init"  -> "Empty"
    [] q = "colon" -> "Empty"
    [] q = "first" -> "Elements"
    [] q = "begin" -> IF kind = "path" THEN "EndSlash" ELSE "EndDot"

\* The automaton run over s: where it stops, and before which character.
RunFrom(kind, s) ==
  LET Go(st, ch) == IF IsRej(st.q) THEN st
                    ELSE [q |-> Move(kind, st.q, Class(ch)), i |-> st.i + 1]
  IN FoldLeft(Go, [q |-> "init", i |-> 0], s)

\* Verdict: <<>> when accepted, <<reason, argument>> otherwise.
VerdictOf(kind, s) ==
  IF kind # "path" /\ Len(s) > MaxNameLen THEN <<"ExceedMaximum", Len(s)>>
  ELSE LET r == RunFrom(kind, s) IN
       IF IsRej(r.q)
       THEN IF r.q = "InvalidChar" THEN <<"InvalidChar", s[r.i]>> ELSE <<r.q, -1>>
       ELSE IF Final(kind, r.q) THEN <<>> ELSE <<EndReason(kind, r.q), -1>>

BusKind(s) == IF Len(s) > 0 /\ s[1] = 58 THEN "unique" ELSE "wellknown"

Verdict(kind, s) == VerdictOf(IF kind = "bus" THEN BusKind(s) ELSE kind, s)
Accepts(kind, s) == Verdict(kind, s) = <<>>

\* ------------------------------------------------------------ declarative
\* Split s at the separator byte: the sequence of (possibly empty) elements.
RECURSIVE SplitAt(_, _)
SplitAt(s, sep) ==
  IF \E i \in 1..Len(s) : s[i] = sep
  THEN LET i == CHOOSE i \in 1..Len(s) : s[i] = sep /\ \A j \in 1..(i - 1) : s[j] # sep
       IN <<SubSeq(s, 1, i - 1)>> \o SplitAt(From(s, i + 1), sep)
  ELSE <<s>>

Over(s, classes) == \A i \in 1..Len(s) : Class(s[i]) \in classes
NonEmpty(es) == \A i \in 1..Len(es) : es[i] # <<>>
NoLeadingDigit(es) == \A i \in 1..Len(es) : Class(es[i][1]) # "D"

Grammar(kind, s) ==
  CASE kind \in {"interface", "error"} ->
         LET es == SplitAt(s, 46) IN
         /\ Len(s) <= MaxNameLen
         /\ Len(es) >= 2 /\ NonEmpty(es)
         /\ \A i \in 1..Len(es) : Over(es[i], {"A", "D"})
         /\ NoLeadingDigit(es)
    [] kind = "member" ->
         /\ Len(s) <= MaxNameLen /\ s # <<>> /\ Over(s, {"A", "D"}) /\ Class(s[1]) # "D"
    [] kind = "wellknown" ->
         LET es == SplitAt(s, 46) IN
         /\ Len(s) <= MaxNameLen
         /\ Len(es) >= 2 /\ NonEmpty(es)
         /\ \A i \in 1..Len(es) : Over(es[i], {"A", "D", "H"})
         /\ NoLeadingDigit(es)
    [] kind = "unique" ->
         /\ Len(s) <= MaxNameLen /\ s # <<>> /\ s[1] = 58
         /\ LET es == SplitAt(Tail(s), 46) IN
            /\ Len(es) >= 2 /\ NonEmpty(es)
            /\ \A i \in 1..Len(es) : Over(es[i], {"A", "D", "H"})
    [] kind = "bus" ->
         \/ Len(s) > 0 /\ s[1] = 58
            /\ LET es == SplitAt(Tail(s), 46) IN
               /\ Len(s) <= MaxNameLen
               /\ Len(es) >= 2 /\ NonEmpty(es)
               /\ \A i \in 1..Len(es) : Over(es[i], {"A", "D", "H"})
         \/ LET es == SplitAt(s, 46) IN
            /\ Len(s) <= MaxNameLen
            /\ Len(es) >= 2 /\ NonEmpty(es)
            /\ \A i \in 1..Len(es) : Over(es[i], {"A", "D", "H"})
            /\ NoLeadingDigit(es)
    [] kind = "path" ->
         \/ s = <<47>>
         \/ /\ Len(s) >= 2 /\ s[1] = 47
            /\ LET es == SplitAt(Tail(s), 47) IN
               NonEmpty(es) /\ \A i \in 1..Len(es) : Over(es[i], {"A", "D"})
=============================================================================
