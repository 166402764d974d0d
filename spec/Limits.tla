------------------------------- MODULE Limits -------------------------------
(* How long the marshalling of a value is, and whether an array in it is too  *)
(* long, without its bytes: what a value adds depends on the offset where it  *)
(* starts only modulo 8.  So a value is a table of eight rows: a row says how *)
(* many bytes it takes from an offset of that residue on (n) and whether one  *)
(* of its arrays is over the limit (bad).                                     *)
(* Values are given by their sizes:                                           *)
(*   [t |-> "fix", c]          a number of type c                             *)
(*   [t |-> "str", c, n]       a text of type c with n bytes                  *)
(*   [t |-> "arr", e, r]       element type e, runs [n, v] of equal elements  *)
(*   [t |-> "grp", d, vs]      a struct (d = 0) or a dict entry               *)
(*   [t |-> "var", v]          a variant                                      *)
EXTENDS Signatures

CONSTANTS MaxArrayLen, MaxMsgLen

Tab(F(_)) == <<F(0), F(1), F(2), F(3), F(4), F(5), F(6), F(7)>>
Row(f, r) == f[(r % 8) + 1]

Nothing == Tab(LAMBDA r : [n |-> 0, bad |-> FALSE])
Take(n) == Tab(LAMBDA r : [n |-> n, bad |-> FALSE])
Pad(a)  == Tab(LAMBDA r : [n |-> AlignUp(r, a) - r, bad |-> FALSE])
Then(f, g) == Tab(LAMBDA r : LET x == Row(f, r)  y == Row(g, r + x.n)
                             IN [n |-> x.n + y.n, bad |-> x.bad \/ y.bad])

\* n times the same value, by repeated doubling.
RECURSIVE Times(_, _)
Times(f, n) ==
  IF n = 0 THEN Nothing
  ELSE IF n = 1 THEN f
  ELSE LET h == Times(Then(f, f), n \div 2) IN IF n % 2 = 1 THEN Then(h, f) ELSE h

\* The elements f of an array: too many bytes?
Limited(f) == Tab(LAMBDA r : LET x == Row(f, r) IN [n |-> x.n, bad |-> x.bad \/ x.n > MaxArrayLen])

RECURSIVE SigOfShape(_)
SigOfShape(v) ==
  CASE v.t \in {"fix", "str"} -> <<v.c>>
    [] v.t = "arr" -> <<97>> \o v.e
    [] v.t = "var" -> <<118>>
    [] v.t = "grp" -> LET Go(s, x) == s \o SigOfShape(x) IN
                      (IF v.d = 1 THEN <<123>> ELSE <<40>>) \o FoldLeft(Go, <<>>, v.vs)
                      \o (IF v.d = 1 THEN <<125>> ELSE <<41>>)

RECURSIVE Table(_)
Runs(r) == LET Go(f, x) == Then(f, Times(Table(x.v), x.n)) IN FoldLeft(Go, Nothing, r)
Table(v) ==
  CASE v.t = "fix" -> Then(Pad(Width(v.c)), Take(Width(v.c)))
    [] v.t = "str" -> IF v.c = 103 THEN Take(v.n + 2) ELSE Then(Pad(4), Take(v.n + 5))
    [] v.t = "arr" -> Then(Then(Pad(4), Take(4)),
                           Then(Pad(Alignment(v.e[1])), Limited(Runs(v.r))))
    [] v.t = "var" -> Then(Take(Len(SigOfShape(v.v)) + 2), Table(v.v))
    [] v.t = "grp" -> LET Go(f, x) == Then(f, Table(x)) IN FoldLeft(Go, Pad(8), v.vs)

\* The values one after the other, from an offset that is a multiple of 8.
Sequence(vs) == LET Go(f, x) == Then(f, Table(x)) IN FoldLeft(Go, Nothing, vs)
Body(vs) == Row(Sequence(vs), 0)
BodySig(vs) == LET Go(s, x) == s \o SigOfShape(x) IN FoldLeft(Go, <<>>, vs)

\* <<offset of the length, length>> of the arrays and texts in v that are not
\* repeated.
RECURSIVE Marks(_, _)
MarksOf(vs, off) ==
  LET Go(st, x) == [off |-> st.off + Row(Table(x), st.off).n, m |-> st.m \o Marks(x, st.off)]
  IN FoldLeft(Go, [off |-> off, m |-> <<>>], vs).m
Marks(v, off) ==
  CASE v.t = "fix" -> <<>>
    [] v.t = "str" -> IF v.c = 103 THEN <<>> ELSE <<<<AlignUp(off, 4), v.n>>>>
    [] v.t = "var" -> Marks(v.v, off + Len(SigOfShape(v.v)) + 2)
    [] v.t = "grp" -> MarksOf(v.vs, AlignUp(off, 8))
    [] v.t = "arr" ->
         LET at == AlignUp(off, 4)
             st == AlignUp(at + 4, Alignment(v.e[1]))
             Go(s, x) == [off |-> s.off + Row(Times(Table(x.v), x.n), s.off).n,
                          m |-> s.m \o (IF x.n = 1 THEN Marks(x.v, s.off) ELSE <<>>)]
         IN <<<<at, Row(Runs(v.r), st).n>>>> \o FoldLeft(Go, [off |-> st, m |-> <<>>], v.r).m

\* Header of a signal /... a.b M: sizes its fields array can have, by the field
\* that comes last (the others are padded).
FieldSizes(path, sig) ==
  <<8 + path + 1, 8 + 3 + 1, 8 + 1 + 1>> \o (IF sig = <<>> THEN <<>> ELSE <<4 + 1 + Len(sig) + 1>>)
HeaderSizes(path, sig) ==
  LET fs == FieldSizes(path, sig)
      Go(n, x) == n + AlignUp(x, 8)
      all == FoldLeft(Go, 0, fs)
  IN {all - AlignUp(fs[i], 8) + fs[i] : i \in 1..Len(fs)}
=============================================================================
