------------------------------ MODULE T_Match ------------------------------
(* Validates recordings about match rules.                                    *)
(*   mtext  s d one       parsing a text; parsing it as a single rule         *)
(*   mshow  rules t each back   printing a list, every rule, parsing again    *)
(*   meval  m rules each all subs some   evaluating rules against a message:   *)
(*          every rule alone, all, and the lists at the positions in subs      *)
EXTENDS MatchRules, Reasons, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 64
VARIABLE c
Init == c \in {n \in 1..Len(Rec) : n <= Lanes}
Next == c + Lanes <= Len(Rec) /\ c' = c + Lanes
X == Rec[c]

Text(x) ==
  LET p == Parse(x.s)  o == ParseOne(x.s) IN
  /\ x.d.st = IF p.ok THEN "ok" ELSE "err"
  /\ p.ok => x.d.rules = p.rules
  /\ x.one.st = IF o.ok THEN "ok" ELSE "err"
  /\ o.ok => x.one.rules = o.r
P16 == X.k = "mtext" => Text(X)

P15 == X.k = "mshow" => X.st # "panic" /\ (X.st = "ok" =>
         /\ X.back.st = "ok" /\ X.back.rules = X.rules
         /\ \A i \in 1..Len(X.rules) :
              /\ Prints(X.each[i], X.rules[i])
              /\ X.keys[i] \in {<<>>, Key(X.rules[i])}
         /\ X.same = 1
         /\ Parse(X.t) = [ok |-> TRUE, rules |-> X.rules]
         /\ X.shown = X.rules)

Judged ==
  /\ \A i \in 1..Len(X.rules) : X.each[i] = IF Matches(X.rules[i], X.m) THEN 1 ELSE 0
  /\ X.all = IF MatchesAll(X.rules, X.m) THEN 1 ELSE 0
  /\ \A i \in 1..Len(X.subs) :
       LET rs == [j \in 1..Len(X.subs[i]) |-> X.rules[X.subs[i][j]]] IN
       X.some[i] = IF MatchesAll(rs, X.m) THEN 1 ELSE 0
P17 == X.k = "meval" => X.st \in {"ok", "build"} /\ (X.st = "ok" => Judged)

\* Rules are built exactly when their parts are valid (argument indexes).
P14 == /\ X.k = "mshow" => X.st = IF \A i \in 1..Len(X.rules) : RuleOk(X.rules[i]) THEN "ok" ELSE "err"
       /\ P16 /\ P17

---------------------------------------------------------------------------
\* P23  the reason given for refusing a text is true of it
KnownKeys == {B(k) : k \in RuleKinds \ {"arg", "argpath"}}
IndexText(key) ==
  LET rest == From(key, 4) IN
  IF EndsWith(rest, KPath) THEN SubSeq(rest, 1, Len(rest) - 4) ELSE rest
\* cl is true of the rule key=v (u: the value unquoted, u.ok: it could be)
Tagged(cl, name, key, k, kind, u) ==
  cl[1] = name /\ key = k /\ u.ok /\ NameTrue(kind, u.v, Tail(cl))
RuleTrue(key, u, cl) ==
  LET arg == StartsWith(key, KArg) /\ key # B("arg0namespace")
      ix == IndexText(key)
      num == IF ix # <<>> /\ ix[1] = 43 THEN Tail(ix) ELSE ix IN
  \/ cl = <<"KeyUnknown">> /\ key \notin KnownKeys /\ ~arg
  \/ cl = <<"ValueClosingQuote">> /\ ~u.ok
  \/ cl = <<"TypeUnknown">> /\ key = B("type") /\ u.ok /\ \A i \in 1..4 : TypeNames[i] # u.v
  \/ cl = <<"EavesdropUnknown">> /\ key = B("eavesdrop") /\ u.ok /\ u.v \notin {B("true"), B("false")}
  \/ Tagged(cl, "SenderError", key, B("sender"), "bus", u)
  \/ Tagged(cl, "InterfaceError", key, B("interface"), "interface", u)
  \/ Tagged(cl, "MemberError", key, B("member"), "member", u)
  \/ Tagged(cl, "PathError", key, B("path"), "path", u)
  \/ Tagged(cl, "PathErrorNamespace", key, B("path_namespace"), "path", u)
  \/ Tagged(cl, "DestinationError", key, B("destination"), "unique", u)
  \/ Tagged(cl, "Arg0NamespaceError", key, B("arg0namespace"), "interface", u)
  \/ /\ arg
     /\ \/ cl = <<"ArgIndexError", "Empty">> /\ ix = <<>>
        \/ cl = <<"ArgIndexError", "InvalidDigit">> /\ ix # <<>> /\ ~Digits(num)
        \/ cl = <<"ArgIndexError", "PosOverflow">> /\ \E i \in 1..Len(num) : Digits(SubSeq(num, 1, i))
                                                 /\ ~NumLeq(Strip0(SubSeq(num, 1, i)), MaxU64)
        \/ /\ cl[1] = "ArgIndexTooBig" /\ Digits(num) /\ ~EndsWith(key, KPath)
           /\ cl = <<"ArgIndexTooBig">> \o Words(Strip0(num))
           /\ Len(Strip0(num)) > 2 \/ Value10(Strip0(num)) >= ArgIndexes
        \/ /\ EndsWith(key, KPath) /\ cl[1] = "ArgPathError" /\ u.ok
           /\ NameTrue("path", u.v, Tail(cl))
\* where the splitter stops: the state before, and the byte it stops at
Stop(s) ==
  LET Go(st, ch) == IF st.e.q = "err" THEN st
                    ELSE [p |-> st.e, e |-> SplitMove(st.e, ch), i |-> st.i + 1]
  IN FoldLeft(Go, [p |-> SplitInit, e |-> SplitInit, i |-> 0], s)
BadKeyChar(s, i, cl) ==
  /\ cl[1] = "KeyInvalidChar" /\ Len(cl) > 1
  /\ i + Len(cl) - 2 <= Len(s)
  /\ cl = <<"KeyInvalidChar">> \o Words(SubSeq(s, i, i + Len(cl) - 2))
  /\ Utf8(SubSeq(s, i, i + Len(cl) - 2))
ListTrue(s, cl) ==
  LET z == Stop(s)  e == z.e  p == Pieces(s) IN
  \/ \E i \in 1..Len(p.out) : RuleTrue(p.out[i].key, [ok |-> TRUE, v |-> p.out[i].val], cl)
  \/ e.q = "err" /\ (\/ BadKeyChar(s, z.i, cl)
                     \/ cl = <<"KeyEmpty">> /\ z.p.q = "kb"
                     \/ cl = <<"MissingEqual">> /\ s[z.i] # EQ)
  \/ e.q = "k" /\ cl = <<"MissingEqual">>
  \/ e.q = "q" /\ (\/ cl = <<"ValueClosingQuote">>
                   \/ RuleTrue(e.key, [ok |-> FALSE, v |-> <<>>], cl))
OneTrue(s, cl) ==
  LET eqs == {i \in 1..Len(s) : s[i] = EQ} IN
  IF eqs = {} THEN cl = <<"MissingEqual">>
  ELSE LET e == CHOOSE i \in eqs : \A j \in eqs : i <= j
           key == SubSeq(s, 1, e - 1) IN
       \/ RuleTrue(key, Unquote(From(s, e + 1)), cl)
       \/ cl = <<"KeyEmpty">> /\ key = <<>>
       \/ \E i \in 1..Len(key) : ~KeyChar(key[i]) /\ BadKeyChar(s, i, cl)
P23 == X.k = "mtext" =>
         /\ X.d.st = "err" => X.d.why # <<>> /\ ListTrue(X.s, X.d.why)
         /\ X.one.st = "err" => X.one.why # <<>> /\ OneTrue(X.s, X.one.why)

P05 ==
  /\ X.k = "mtext" => X.d.st \in {"ok", "err"} /\ X.one.st \in {"ok", "err"}
  /\ X.k = "mshow" => X.st \in {"ok", "err"} /\ (X.st = "ok" => X.back.st \in {"ok", "err"})
  /\ X.k = "meval" => X.st \in {"ok", "build"}
=============================================================================
