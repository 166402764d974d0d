------------------------------- MODULE Paths -------------------------------
(* Object paths as sequences of elements (the root is the empty sequence).    *)
EXTENDS Names

Flat(es) == FoldLeft(LAMBDA acc, e : acc \o <<47>> \o e, <<>>, es)
PathText(p) == IF p = <<>> THEN <<47>> ELSE Flat(p)
PathOf(s) == IF s = <<47>> THEN <<>> ELSE SplitAt(Tail(s), 47)

ElementOk(e) == e # <<>> /\ Over(e, {"A", "D"})
PathOk(p) == \A i \in 1..Len(p) : ElementOk(p[i])

ProperPrefix(b, p) == Len(b) < Len(p) /\ SubSeq(p, 1, Len(b)) = b
Rest(b, p) == SubSeq(p, Len(b) + 1, Len(p))

\* What an operation does to path p: the new path, its result, what it yields.
PathDo(p, op) ==
  CASE op.o = "app"   -> IF ElementOk(op.a) THEN [p |-> Append(p, op.a), r |-> 1, x |-> <<>>]
                         ELSE [p |-> p, r |-> 0, x |-> <<>>]
    [] op.o = "new"   -> IF Accepts("path", op.a) THEN [p |-> PathOf(op.a), r |-> 1, x |-> <<>>]
                         ELSE [p |-> p, r |-> 0, x |-> <<>>]
    [] op.o = "def"   -> [p |-> <<>>, r |-> 1, x |-> <<>>]
    [] op.o = "sw"    -> [p |-> p, r |-> IF ProperPrefix(PathOf(op.a), p) THEN 1 ELSE 0, x |-> <<>>]
    [] op.o = "strip" -> IF ProperPrefix(PathOf(op.a), p)
                         THEN [p |-> p, r |-> 1, x |-> <<Rest(PathOf(op.a), p)>>]
                         ELSE [p |-> p, r |-> 0, x |-> <<>>]
=============================================================================
