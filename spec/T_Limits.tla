------------------------------ MODULE T_Limits ------------------------------
(* Validates recordings about messages of the largest sizes.                  *)
(*   benc  path body r       encoded (and what came out decoded again)        *)
(*   bdec  path body ext hl r r2   decoded, ext bytes following               *)
EXTENDS Limits, TLC, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 64
VARIABLE c
Init == c \in {n \in 1..Len(Rec) : n <= Lanes}
Next == c + Lanes <= Len(Rec) /\ c' = c + Lanes
X == Rec[c]

Total(hl, b) == AlignUp(16 + hl, 8) + b.n
Fits(hl, b) == hl <= MaxArrayLen /\ ~b.bad

Decoded(r, hl, b) ==
  IF Fits(hl, b) /\ Total(hl, b) <= MaxMsgLen
  THEN r.st = "ok" /\ r.off = Total(hl, b) /\ r.same = 1
  ELSE r.st = "err"

Enc(x) ==
  LET b == Body(x.body)  hs == HeaderSizes(x.path, BodySig(x.body)) IN
  /\ x.r.st \in {"ok", "err"}
  /\ (\A h \in hs : Fits(h, b)) => x.r.st = "ok"
  /\ (\A h \in hs : ~Fits(h, b)) => x.r.st = "err"
  /\ x.r.st = "ok" =>
       LET hl == U32(x.r.hl)  m == MarksOf(x.body, 0) IN
       /\ hl \in hs /\ hl <= MaxArrayLen
       /\ x.r.bl = LE32(b.n)
       /\ x.r.len = Total(hl, b)
       /\ Len(x.r.lens) = Len(m)
       /\ \A i \in 1..Len(m) : x.r.lens[i] = <<m[i][1], LE32(m[i][2])>>
       /\ Decoded(x.r.d, hl, b)

Dec(x) ==
  LET b == Body(x.body)  hl == U32(x.hl) IN
  /\ Assert(hl \in HeaderSizes(x.path, BodySig(x.body)) /\ x.total = Total(hl, b), <<"harness", c>>)
  /\ Decoded(x.r, hl, b)
  /\ Decoded(x.r2, hl, b)

\* Of messages within the limits
P01 == X.k = "benc" => (X.r.st = "ok" => X.r.d.st = "ok" /\ X.r.d.same = 1)
P02 == X.k = "benc" => Enc(X)
P03 == X.k = "bdec" => Dec(X)
P14 == /\ X.k = "benc" => Enc(X)
       /\ X.k = "bdec" => Dec(X)
P05 == /\ X.k = "benc" => X.r.st # "panic" /\ (X.r.st = "ok" => X.r.d.st # "panic")
       /\ X.k = "bdec" => X.r.st # "panic" /\ X.r2.st # "panic"
=============================================================================
