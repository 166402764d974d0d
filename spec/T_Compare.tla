----------------------------- MODULE T_Compare -----------------------------
(* Validates recorded comparisons within pools of related things.             *)
(*   cmp t x eq ord hash as   class, contents, matrices (see Compare.tla);    *)
(*                            as[i][j]: i equals the text of j                *)
EXTENDS Compare, TLC, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 64
VARIABLE c
Init == c \in {n \in 1..Len(Rec) : n <= Lanes}
Next == c + Lanes <= Len(Rec) /\ c' = c + Lanes
X == Rec[c]

Texts == {"interface", "error", "member", "wellknown", "unique", "bus", "path", "type", "rule", "header", "fields"}
Values == {"value", "array", "struct"}
Parts(a, b) == /\ a.le = b.le /\ a.ty = b.ty /\ a.fl = b.fl /\ a.ver = b.ver
               /\ a.ser = b.ser /\ a.f = b.f
SameAs(i, j) ==
  LET a == X.x[i]  b == X.x[j] IN
  IF X.t \in Texts THEN a = b
  ELSE IF X.t \in Values THEN SameToks(a, b)
  ELSE Parts(a, b) /\ SameToks(a.b, b.b)
May(i, j) ==
  LET a == X.x[i]  b == X.x[j] IN
  IF X.t \in Texts THEN FALSE
  ELSE IF X.t \in Values THEN HasNaN(a) \/ HasNaN(b)
  ELSE HasNaN(a.b) \/ HasNaN(b.b)

P25 ==
  LET n == Len(X.x) IN
  /\ X.st = "ok"
  /\ Equal(n, X.eq, SameAs)
  /\ X.ord # <<>> => Ordered(n, X.ord, SameAs, May)
  /\ X.hash # <<>> => Hashed(n, X.hash, SameAs)
  /\ X.as # <<>> => Equal(n, X.as, SameAs)
=============================================================================
