------------------------------- MODULE Reasons -------------------------------
(* When is the reason given for a refusal true of the refused text?           *)
(* A claim is a sequence of words: the name of the reason, the names inside   *)
(* it, its numbers in decimal.  More than one claim can be true of a text     *)
(* with several defects; nothing is said about which one has to be given.     *)
EXTENDS Names, Signatures, TLC

W1(name, n) == <<name, ToString(n)>>
Words(ns) == [i \in 1..Len(ns) |-> ToString(ns[i])]

\* ------------------------------------------------------------------ names
Allowed(kind) ==
  CASE kind \in {"interface", "error"} -> {"A", "D", "P"}
    [] kind = "member"    -> {"A", "D"}
    [] kind = "wellknown" -> {"A", "D", "H", "P"}
    [] kind = "unique"    -> {"A", "D", "H", "P", "C"}
    [] kind = "path"      -> {"A", "D", "S"}
\* position i is where an element begins (after the colon of a unique name)
Begins(kind, s, i) ==
  \/ i = 1
  \/ s[i - 1] = (IF kind = "path" THEN 47 ELSE 46)
  \/ kind = "unique" /\ i = 2 /\ s[1] = 58
NameTrue1(kind, s, cl) ==
  CASE cl[1] = "ExceedMaximum" -> kind # "path" /\ Len(s) > MaxNameLen /\ cl = W1("ExceedMaximum", Len(s))
    [] cl[1] = "InvalidChar" ->
         \E i \in 1..Len(s) : Class(s[i]) \notin Allowed(kind) /\ cl = W1("InvalidChar", s[i])
    [] Len(cl) # 1 -> FALSE
    [] cl[1] = "Empty"    -> s = <<>> \/ (kind = "unique" /\ s = <<58>>)
    [] cl[1] = "Elements" -> /\ kind \notin {"member", "path"}
                             /\ \A i \in 1..Len(s) : s[i] # 46
                             /\ s # <<>> /\ (kind = "unique" => s # <<58>>)
    [] cl[1] = "EndDot"   -> s # <<>> /\ s[Len(s)] = 46
    [] cl[1] = "EndSlash" -> Len(s) > 1 /\ s[Len(s)] = 47
    [] cl[1] = "ElementBeginDot"   -> \E i \in 1..Len(s) : s[i] = 46 /\ Begins(kind, s, i)
    [] cl[1] = "ElementBeginDigit" -> kind \notin {"unique", "path"} /\ \E i \in 1..Len(s) : IsDigit(s[i]) /\ Begins(kind, s, i)
    [] cl[1] = "ElementEmtpy" -> kind = "path" /\ \E i \in 2..Len(s) : s[i] = 47 /\ s[i - 1] = 47
    [] cl[1] = "BeginDigit"   -> s # <<>> /\ IsDigit(s[1])
    [] cl[1] = "BeginDot"     -> s # <<>> /\ s[1] = 46
    [] cl[1] = "BeginColon"   -> kind = "unique" /\ s # <<>> /\ s[1] # 58
    [] cl[1] = "Colon"        -> kind = "unique" /\ \E i \in 2..Len(s) : s[i] = 58
    [] cl[1] = "BeginAlphanumericAndUnderscoreAndHyphen" -> kind = "path" /\ s # <<>> /\ Class(s[1]) \in {"A", "D", "H"}
    [] OTHER -> FALSE
BusWrapper(s) == IF BusKind(s) = "unique" THEN "UniqueConnectionNameError" ELSE "WellKnownBusNameError"
NameTrue(kind, s, cl) ==
  /\ cl # <<>>
  /\ IF kind = "bus" THEN cl[1] = BusWrapper(s) /\ Len(cl) > 1 /\ NameTrue1(BusKind(s), s, Tail(cl))
     ELSE NameTrue1(kind, s, cl)

\* ------------------------------------------------------------- signatures
\* The first place where s stops being a signature (one type), lengths aside.
FirstDefect(s, single) == IF single THEN NextType(s, 1, 0, 0, 0).why ELSE SeqFrom(s, 1).why
OneMore(s) == LET r == NextType(s, 1, 0, 0, 0) IN r.ok /\ r.p <= Len(s)
SigChars == TypeCodes \cup {97, 40, 41, 123, 125}
SigTrue1(s, single, cl) ==
  LET w == FirstDefect(s, single) IN
  CASE cl[1] = "ExceedMaximum" -> Len(s) > MaxSigLen /\ cl = W1("ExceedMaximum", Len(s))
    [] cl[1] = "MultiplyTypes" -> single /\ OneMore(s) /\ Len(cl) = 1
    [] cl[1] = "InvalidChar" ->
         \/ w # <<>> /\ w[1] = "InvalidChar" /\ cl = W1("InvalidChar", w[2])
         \/ \E i \in 1..Len(s) : s[i] \notin SigChars /\ cl = W1("InvalidChar", s[i])
    [] cl[1] = "TooShort" ->
         /\ w # <<>> /\ w[1] = "TooShort" /\ Len(cl) = 3
         /\ cl[2] = ToString(Len(s)) /\ \E o \in Len(s)..(Len(s) + 1) : cl[3] = ToString(o)
    [] OTHER -> w # <<>> /\ cl = <<w[1]>> \o Words(Tail(w))

\* Types that cannot be printed: s is what they would print as.  The deepest
\* nesting of arrays, structs and dict entries in s.
MaxOf(n, m) == IF n > m THEN n ELSE m
Deep0 == [stk |-> <<>>, base |-> 0, cur |-> 0, a |-> 0, t |-> 0, d |-> 0, nt |-> 0, nd |-> 0]
Deepest(s) ==
  FoldLeft(LAMBDA m, c :
             CASE c = 97 -> [m EXCEPT !.cur = @ + 1, !.a = MaxOf(@, m.cur + 1)]
               [] c = 40 -> [m EXCEPT !.stk = <<m.base>> \o @, !.base = m.cur, !.nt = @ + 1, !.t = MaxOf(@, m.nt + 1)]
               [] c = 123 -> [m EXCEPT !.stk = <<m.base>> \o @, !.base = m.cur, !.nd = @ + 1, !.d = MaxOf(@, m.nd + 1)]
               [] c = 41 -> [m EXCEPT !.stk = Tail(@), !.base = m.stk[1], !.cur = m.stk[1], !.nt = @ - 1]
               [] c = 125 -> [m EXCEPT !.stk = Tail(@), !.base = m.stk[1], !.cur = m.stk[1], !.nd = @ - 1]
               [] OTHER -> [m EXCEPT !.cur = m.base],
           Deep0, s)
TooDeep(name, limit, deep, cl) ==
  \E n \in (limit + 1)..deep : cl = W1(name, n)
PrintTrue(s, single, cl) ==
  CASE cl[1] = "ExceedMaximum" -> \E n \in (MaxSigLen + 1)..Len(s) : cl = W1("ExceedMaximum", n)
    [] cl[1] = "MultiplyTypes" -> single /\ OneMore(s) /\ Len(cl) = 1
    [] cl[1] = "InvalidChar" ->
         (\E i \in 1..(Len(s) - 1) : s[i] = 40 /\ s[i + 1] = 41) /\ cl = W1("InvalidChar", 41)
    [] cl[1] = "ArrayDepth"  -> TooDeep(cl[1], MaxArrayDepth, Deepest(s).a, cl)
    [] cl[1] = "StructDepth" -> TooDeep(cl[1], MaxStructDepth, Deepest(s).t, cl)
    [] cl[1] = "DictDepth"   -> TooDeep(cl[1], MaxDictDepth, Deepest(s).d, cl)
    [] OTHER -> FALSE
\* printed: the types were printed, which may stop at the first thing wrong
SigTrue(s, single, printed, cl) ==
  cl # <<>> /\ IF printed THEN PrintTrue(s, single, cl) ELSE SigTrue1(s, single, cl)

\* --------------------------------------------------------- header fields
FieldErrKind == [InterfaceError |-> "interface", MemberError |-> "member",
                 ErrorError |-> "error", BusError |-> "bus"]
=============================================================================
