----------------------------- MODULE MC_Matching ----------------------------
(* Exhaustive: what matching means.  For every list of up to R rules of a     *)
(* pool and every message of another:                                         *)
(*   - a longer list matches no more, and no list matches all the empty one   *)
(*     does not; the order of rules and repetitions do not matter;            *)
(*   - a namespace is the paths with a sequence of elements as prefix; the    *)
(*     same for names; a path lies in the namespaces its parents are, in one  *)
(*     chain;                                                                 *)
(*   - what a list of rules prints as, parsed, matches the same.              *)
EXTENDS MatchRules
CONSTANT R
VARIABLE rs
P == INSTANCE Paths
R1(k, n, v) == Rule(k, B(n), B(v))
Texts == {"/", "/a", "/ab", "/a/b", "a.b", "a.bc", "a.b.c", "'", ","}
Pool == {Rule("type", <<>>, TypeNames[i]) : i \in {1, 4}}
        \cup {R1(k, "", v) : k \in {"path", "path_namespace"}, v \in {"/", "/a", "/a/b"}}
        \cup {R1("sender", "", ":1.2"), R1("destination", "", ":1.2"), R1("member", "", "m"), R1("eavesdrop", "", "true")}
        \cup {R1(k, "", v) : k \in {"interface", "arg0namespace"}, v \in {"a.b", "a.b.c"}}
        \cup {R1("arg", n, v) : n \in {"0", "1"}, v \in {"a.b", "/a", "'", ","}}
        \cup {R1("argpath", n, v) : n \in {"0", "1"}, v \in {"/", "/a"}}
Init == rs = <<>>
Next == Len(rs) < R /\ \E x \in Pool : rs' = Append(rs, x)

Opt(S) == {<<>>} \cup {<<B(x)>> : x \in S}
Bodies == {<<>>} \cup {<<B(c) \o B(v)>> : c \in {"s"}, v \in Texts}
          \cup {<<B("o") \o B(v)>> : v \in {"/", "/a", "/a/b"}}
          \cup {<<<<121, 1>>, B("s") \o B(v)>> : v \in {"a.b", "/a"}}
          \cup {<<<<118, 115>>, B("sa.b")>>, <<<<97, 115>>, B("sa.b"), <<93>>>>, <<<<40>>, B("sa.b"), <<41>>>>}
Msg(ty, p, i, m, d, s, b) == [ty |-> ty, f |-> <<p, i, m, <<>>, <<>>, d, s, <<>>, <<>>>>, b |-> b]
\* messages that differ in one place from a common one, and in the body
Std(b) == Msg(1, <<B("/a/b")>>, <<B("a.b.c")>>, <<B("m")>>, <<B(":1.2")>>, <<B(":1.2")>>, b)
Msgs == {Std(b) : b \in Bodies}
        \cup {[Std(<<>>) EXCEPT !.ty = t] : t \in 2..4}
        \cup {[Std(<<>>) EXCEPT !.f[1] = p] : p \in Opt({"/", "/a", "/ab", "/a/b", "/a/b/c", "/a/bc"})}
        \cup {[Std(<<>>) EXCEPT !.f[2] = p] : p \in Opt({"a.b", "a.bc", "a.b.c.d"})}
        \cup {[Std(<<>>) EXCEPT !.f[3] = p] : p \in Opt({"mm", "M"})}
        \cup {[Std(<<>>) EXCEPT !.f[k] = p] : k \in {6, 7}, p \in Opt({":1.20", "a.b", ":1.2"})}

Yes1(q, m) == MatchesAll(q, m)
Monotone == \A m \in Msgs :
  /\ Yes1(<<>>, m)
  /\ rs # <<>> => (Yes1(rs, m) <=> Yes1(Front(rs), m) /\ Matches(Last(rs), m))
  /\ Yes1(rs, m) = Yes1(Reverse(rs), m)
  /\ Yes1(rs, m) = Yes1(rs \o rs, m)
Printed == LET p == Parse(ShowAll(rs)) IN p.ok /\ \A m \in Msgs : Yes1(p.rules, m) = Yes1(rs, m)
\* each rule, from what the words mean
Elems(s) == P!PathOf(s)
Within(base, es) == base = es \/ P!ProperPrefix(base, es)
Dots(s) == SplitAt(s, 46)
Meant(r, m) ==
  CASE r.k = "path_namespace" -> m.f[1] # <<>> /\ Within(Elems(r.v), Elems(m.f[1][1]))
    [] r.k = "arg0namespace" -> LET x == ArgText(m, <<48>>, {115}) IN x # <<>> /\ Within(Dots(r.v), Dots(x[1]))
    [] r.k = "argpath" -> LET x == ArgText(m, r.n, {115, 111}) IN
                          x # <<>> /\ (Accepts("path", x[1]) => Within(Elems(r.v), Elems(x[1])))
                                   /\ (~Accepts("path", x[1]) => x[1] # r.v /\ x[1][1] = 47)
    [] r.k = "path" -> m.f[1] # <<>> /\ Elems(r.v) = Elems(m.f[1][1])
    [] OTHER -> Matches(r, m)
Meaning1 == rs # <<>> => \A m \in Msgs :
  LET r == Last(rs) IN
  /\ Meant(r, m) = Matches(r, m)
  /\ (r.k = "path" /\ Matches(r, m)) => Matches([r EXCEPT !.k = "path_namespace"], m)
  /\ (r.k = "arg" /\ Matches(r, m) /\ Accepts("path", r.v)) => Matches([r EXCEPT !.k = "argpath"], m)
\* two namespaces that hold the same path: one lies in the other
Chained == \A i, j \in 1..Len(rs) :
  LET p == rs[i]  q == rs[j] IN
  (p.k = "path_namespace" /\ q.k = "path_namespace" /\ \E m \in Msgs : Matches(p, m) /\ Matches(q, m))
    => Below(p.v, q.v, 47) \/ Below(q.v, p.v, 47)
=============================================================================
