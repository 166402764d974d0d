----------------------------- MODULE MatchRules -----------------------------
(* Match rules.  A rule is [k |-> kind, n |-> index, v |-> value]: the value  *)
(* as bytes, the index (arguments only) as decimal digits without leading     *)
(* zeros.                                                                     *)
EXTENDS Names, Values

CONSTANT ArgIndexes          \* 64: argument indexes are 0..63
RuleKinds == {"type", "sender", "interface", "member", "path", "path_namespace",
              "destination", "arg", "argpath", "arg0namespace", "eavesdrop"}
BS == 92  QU == 39  CO == 44  EQ == 61

Rule(k, n, v) == [k |-> k, n |-> n, v |-> v]

\* ------------------------------------------------------------------- text
KeyChar(c) == IsDigit(c) \/ IsAlpha(c) \/ c = 95

\* The splitter, one byte at a time.  q: "kb" before a key, "k" in a key, "v" in
\* a value, "b" after a backslash outside quotes, "q" inside quotes, "err".
SplitInit == [q |-> "kb", key |-> <<>>, val |-> <<>>, out |-> <<>>]
Put(st, q, b) == [st EXCEPT !.q = q, !.val = @ \o b]
Close(st) == [q |-> "kb", key |-> <<>>, val |-> <<>>,
              out |-> Append(st.out, [key |-> st.key, val |-> st.val])]
SplitMove(st, c) ==
  CASE st.q = "kb" -> IF KeyChar(c) THEN [st EXCEPT !.q = "k", !.key = <<c>>]
                      ELSE [st EXCEPT !.q = "err"]
    [] st.q = "k"  -> IF KeyChar(c) THEN [st EXCEPT !.key = Append(@, c)]
                      ELSE IF c = EQ THEN [st EXCEPT !.q = "v"]
                      ELSE [st EXCEPT !.q = "err"]
    [] st.q = "v"  -> IF c = BS THEN [st EXCEPT !.q = "b"]
                      ELSE IF c = QU THEN [st EXCEPT !.q = "q"]
                      ELSE IF c = CO THEN Close(st)
                      ELSE Put(st, "v", <<c>>)
    [] st.q = "b"  -> IF c = QU THEN Put(st, "v", <<QU>>)
                      ELSE IF c = BS THEN Put(st, "b", <<BS>>)
                      ELSE IF c = CO THEN Close(Put(st, "v", <<BS>>))
                      ELSE Put(st, "v", <<BS, c>>)
    [] st.q = "q"  -> IF c = QU THEN [st EXCEPT !.q = "v"] ELSE Put(st, "q", <<c>>)
    [] st.q = "err" -> st
\* The pieces [key, val] of a text: [ok, out].
Pieces(s) ==
  LET e == FoldLeft(SplitMove, SplitInit, s) IN
  CASE e.q = "kb" -> [ok |-> TRUE, out |-> e.out]
    [] e.q = "v"  -> [ok |-> TRUE, out |-> Close(e).out]
    [] e.q = "b"  -> [ok |-> TRUE, out |-> Close(Put(e, "v", <<BS>>)).out]
    [] OTHER      -> [ok |-> FALSE, out |-> e.out]

\* A value on its own: [ok, v] (commas outside quotes are literal here).
Unquote(s) ==
  LET Go(st, c) == IF st.q = "v" /\ c = CO THEN Put(st, "v", <<c>>)
                   ELSE IF st.q = "b" /\ c = CO THEN Put(st, "v", <<BS, c>>)
                   ELSE SplitMove(st, c)
      e == FoldLeft(Go, [SplitInit EXCEPT !.q = "v"], s)
  IN IF e.q = "q" THEN [ok |-> FALSE, v |-> <<>>]
     ELSE [ok |-> TRUE, v |-> IF e.q = "b" THEN Append(e.val, BS) ELSE e.val]

\* ---------------------------------------------------------------- numbers
Digits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
Strip0(s) ==
  LET nz == {i \in 1..Len(s) : s[i] # 48} IN
  IF nz = {} THEN <<48>>
  ELSE SubSeq(s, CHOOSE i \in nz : \A j \in nz : i <= j, Len(s))
MaxU64 == B("18446744073709551615")
\* a <= b, both without leading zeros
NumLeq(a, b) ==
  \/ Len(a) < Len(b)
  \/ Len(a) = Len(b) /\ (a = b \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j])
Value10(a) == FoldLeft(LAMBDA x, d : (10 * x) + (d - 48), 0, a)
\* An index is at most 2^64 - 1.  plus: a leading '+' is let through.
Index(s, plus) ==
  LET d == IF plus /\ s # <<>> /\ s[1] = 43 THEN Tail(s) ELSE s IN
  IF Digits(d) /\ NumLeq(Strip0(d), MaxU64) THEN <<Strip0(d)>> ELSE <<>>

\* ------------------------------------------------------- meaning of a piece
TypeNames == <<B("method_call"), B("method_return"), B("error"), B("signal")>>
No == [ok |-> FALSE, r |-> <<>>]
Yes(k, n, v) == [ok |-> TRUE, r |-> <<Rule(k, n, v)>>]
Named(k, kind, v) == IF Accepts(kind, v) THEN Yes(k, <<>>, v) ELSE No

KArg == B("arg")
KPath == B("path")
Meaning(key, v, plus) ==
  CASE key = B("type") -> IF \E i \in 1..4 : TypeNames[i] = v THEN Yes("type", <<>>, v) ELSE No
    [] key = B("sender") -> Named("sender", "bus", v)
    [] key = B("interface") -> Named("interface", "interface", v)
    [] key = B("member") -> Named("member", "member", v)
    [] key = B("path") -> Named("path", "path", v)
    [] key = B("path_namespace") -> Named("path_namespace", "path", v)
    [] key = B("destination") -> Named("destination", "unique", v)
    [] key = B("eavesdrop") -> IF v \in {B("true"), B("false")} THEN Yes("eavesdrop", <<>>, v) ELSE No
    [] key = B("arg0namespace") -> Named("arg0namespace", "interface", v)
    [] StartsWith(key, KArg) /\ key \notin {B("arg0namespace")} ->
         LET rest == From(key, 4) IN
         IF EndsWith(rest, KPath)
         THEN LET n == Index(SubSeq(rest, 1, Len(rest) - 4), plus) IN
              IF n # <<>> /\ Accepts("path", v) THEN Yes("argpath", n[1], v) ELSE No
         ELSE LET n == Index(rest, plus) IN
              IF n # <<>> /\ Len(n[1]) <= 2 /\ Value10(n[1]) < ArgIndexes
              THEN Yes("arg", n[1], v) ELSE No
    [] OTHER -> No

\* A text: [ok, rules].
Parse(s) ==
  LET p == Pieces(s)
      ms == [i \in 1..Len(p.out) |-> Meaning(p.out[i].key, p.out[i].val, FALSE)]
  IN IF p.ok /\ \A i \in 1..Len(ms) : ms[i].ok
     THEN [ok |-> TRUE, rules |-> [i \in 1..Len(ms) |-> ms[i].r[1]]]
     ELSE [ok |-> FALSE, rules |-> <<>>]

\* A single rule given as text, without the splitter.
ParseOne(s) ==
  LET eqs == {i \in 1..Len(s) : s[i] = EQ} IN
  IF eqs = {} THEN No
  ELSE LET e == CHOOSE i \in eqs : \A j \in eqs : i <= j
           u == Unquote(From(s, e + 1))
       IN IF u.ok THEN Meaning(SubSeq(s, 1, e - 1), u.v, TRUE) ELSE No

\* ---------------------------------------------------------------- printing
Key(r) == CASE r.k = "arg" -> KArg \o r.n
            [] r.k = "argpath" -> KArg \o r.n \o KPath
            [] OTHER -> B(r.k)
Escape(v) == FoldLeft(LAMBDA acc, c : acc \o (CASE c = QU -> <<BS, QU>>
                                                [] c = CO -> <<QU, CO, QU>>
                                                [] c = BS -> <<QU, BS, QU>>
                                                [] OTHER -> <<c>>), <<>>, v)
Show(r) == Key(r) \o <<EQ>> \o Escape(r.v)
ShowAll(rs) ==
  FoldLeft(LAMBDA acc, r : IF acc = <<>> THEN Show(r) ELSE acc \o <<CO>> \o Show(r), <<>>, rs)

\* e is an escaped form of v: it reads back as v and no comma ends it early.
EscapeOf(e, v) ==
  LET p == Pieces(B("k=") \o e) IN p.ok /\ p.out = <<[key |-> B("k"), val |-> v]>>
\* t is what rule r may print as.
Prints(t, r) == StartsWith(t, Key(r) \o <<EQ>>) /\ EscapeOf(From(t, Len(Key(r)) + 2), r.v)

\* ---------------------------------------------------------------- matching
\* x is ns or lies below it.
Below(ns, x, sep) ==
  \/ x = ns
  \/ ns = <<sep>> /\ StartsWith(x, ns)            \* the root
  \/ StartsWith(x, Append(ns, sep))


\* The text of argument number n (digits) if it has one of the types given.
ArgText(m, n, codes) ==
  LET is == Items(m.b) IN
  IF Len(n) > 4 \/ Value10(n) >= Len(is) THEN <<>>
  ELSE LET a == is[Value10(n) + 1] IN
       IF Len(a) = 1 /\ a[1][1] \in codes THEN <<Tail(a[1])>> ELSE <<>>

Holds(opt, P(_)) == opt # <<>> /\ P(opt[1])
Matches(r, m) ==
  CASE r.k = "type"      -> TypeNames[m.ty] = r.v
    [] r.k = "sender"    -> m.f[7] = <<r.v>>
    [] r.k = "interface" -> m.f[2] = <<r.v>>
    [] r.k = "member"    -> m.f[3] = <<r.v>>
    [] r.k = "path"      -> m.f[1] = <<r.v>>
    [] r.k = "path_namespace" -> Holds(m.f[1], LAMBDA x : Below(r.v, x, 47))
    [] r.k = "destination"    -> m.f[6] = <<r.v>>
    [] r.k = "arg"       -> ArgText(m, r.n, {115}) = <<r.v>>
    [] r.k = "argpath"   -> Holds(ArgText(m, r.n, {115, 111}), LAMBDA x : Below(r.v, x, 47))
    [] r.k = "arg0namespace"  -> Holds(ArgText(m, <<48>>, {115}), LAMBDA x : Below(r.v, x, 46))
    [] r.k = "eavesdrop" -> TRUE
MatchesAll(rs, m) == \A i \in 1..Len(rs) : Matches(rs[i], m)

\* Rules that can be built at all.
RuleOk(r) ==
  CASE r.k = "arg" -> Len(r.n) <= 2 /\ Value10(r.n) < ArgIndexes
    [] r.k = "argpath" -> Accepts("path", r.v)
    [] r.k = "type" -> \E i \in 1..4 : TypeNames[i] = r.v
    [] r.k = "sender" -> Accepts("bus", r.v)
    [] r.k = "destination" -> Accepts("unique", r.v)
    [] r.k \in {"interface", "arg0namespace"} -> Accepts("interface", r.v)
    [] r.k = "member" -> Accepts("member", r.v)
    [] r.k \in {"path", "path_namespace"} -> Accepts("path", r.v)
    [] r.k = "eavesdrop" -> r.v \in {B("true"), B("false")}
=============================================================================
