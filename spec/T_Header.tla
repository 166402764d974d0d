------------------------------- MODULE T_Header -------------------------------
(* Headers built through the API.                                             *)
(*   hnew  m r       MessageHeader::new with the header of m                  *)
(*   hfld  v r       the header fields of the list of values v, and back      *)
(*   mty   by tx fl  message types as numbers and texts, flags as numbers     *)
EXTENDS Wire, Values, Reasons, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 64
VARIABLE c
X == Rec[c]
Init == c \in {n \in 1..Len(Rec) : n <= Lanes}
Next == c + Lanes <= Len(Rec) /\ c' = c + Lanes

SetOf(q) == {q[i] : i \in 1..Len(q)}
\* --------------------------------------------------------------- the rules
Lacks(m) == {n \in SetOf(Required(m.ty)) : m.f[n] = <<>>}

\* A list of values is read as fields: items are structs of a byte and a variant.
IsField(x) ==
  /\ x[1] = <<40>>
  /\ LET ms == Items(SubSeq(x, 2, Len(x) - 1)) IN
     Len(ms) = 2 /\ ms[1][1][1] = 121 /\ ms[2][1][1] = 118
Field(x) == LET ms == Items(SubSeq(x, 2, Len(x) - 1)) IN
            [c |-> ms[1][1][2], s |-> Tail(ms[2][1]), v |-> Tail(ms[2])]
\* Field x in itself: a known code, its type, its kind of name.
Proper(x) == /\ x.c \in 1..9
             /\ x.s = FieldSigCode[x.c]
             /\ (x.c \in {2, 3, 4, 6, 7} => Accepts(FieldKind[x.c], Tail(x.v[1])))
Good(vs) ==
  /\ \A i \in 1..Len(vs) : IsField(vs[i]) /\ Proper(Field(vs[i]))
  /\ \A i, j \in 1..Len(vs) : i # j => Field(vs[i]).c # Field(vs[j]).c
Gathered(vs) ==
  [n \in 1..9 |-> LET is == {i \in 1..Len(vs) : Field(vs[i]).c = n} IN
                  IF is = {} THEN <<>> ELSE <<Tail(Field(vs[CHOOSE i \in is : TRUE]).v[1])>>]

New(x) ==
  IF Lacks(x.m) # {} THEN x.r.st = "err"
  ELSE /\ x.r.st = "ok" /\ x.r.bad = 0
       /\ x.r.le = x.m.le /\ x.r.ty = x.m.ty /\ x.r.fl = x.m.fl /\ x.r.ver = x.m.ver
       /\ x.r.ser = x.m.ser /\ x.r.f = x.m.f
Fields(x) ==
  LET vs == Items(x.v) IN
  IF Good(vs)
  THEN /\ x.r.st = "ok" /\ x.r.f = Gathered(vs)
       /\ LET bs == Items(x.r.back) IN SetOf(bs) = SetOf(vs) /\ Len(bs) = Len(vs)
  ELSE x.r.st = "err"

TypeText == <<"method_call", "method_return", "error", "signal">>
Types(x) ==
  /\ SetOf(x.by) = {<<t, t, t, B(TypeText[t])>> : t \in 1..4}
  /\ \A i \in 1..Len(x.tx) :
       x.tx[i][2] = IF \E t \in 1..4 : B(TypeText[t]) = x.tx[i][1]
                    THEN CHOOSE t \in 1..4 : B(TypeText[t]) = x.tx[i][1] ELSE 0
  /\ SetOf(x.fl) = {<<n, n>> : n \in 0..7}

P09 == CASE X.k = "hnew" -> New(X)
         [] X.k = "hfld" -> Fields(X)
         [] X.k = "mty"  -> Types(X)

P05 == X.k \in {"hnew", "hfld"} => X.r.st \in {"ok", "err"}

\* ------------------------------------------------------- the reason is true
\* Every field-like item that says what the reason says.
HfldTrue(x) ==
  LET vs == Items(x.v)
      C == x.r.c
      v == IF x.r.v = <<>> THEN <<>> ELSE x.r.v[1]
      Ms(y) == Items(SubSeq(y, 2, Len(y) - 1))
      fs == {i \in 1..Len(vs) : IsField(vs[i])}
      F(i) == Field(vs[i])
      Here(y) == v = y                       \* the value carried
  IN
  \/ C = <<"Struct">> /\ \E i \in 1..Len(vs) : vs[i][1] # <<40>> /\ Here(vs[i])
  \/ C[1] = "Length" /\ \E i \in 1..Len(vs) :
        vs[i][1] = <<40>> /\ Len(Ms(vs[i])) # 2 /\ C = W1("Length", Len(Ms(vs[i])))
  \/ C = <<"Variant">> /\ \E i \in 1..Len(vs) :
        vs[i][1] = <<40>> /\ Len(Ms(vs[i])) > 1 /\ Ms(vs[i])[2][1][1] # 118 /\ Here(Ms(vs[i])[2])
  \/ C = <<"Byte">> /\ \E i \in 1..Len(vs) :
        vs[i][1] = <<40>> /\ Ms(vs[i])[1][1][1] # 121 /\ Here(Ms(vs[i])[1])
  \/ \E i \in fs : F(i).c \notin 1..9 /\ C = W1("InvalidNumber", F(i).c)
  \/ \E n \in 1..9 :
       \/ C = <<"Multiple" \o FieldName[n]>> /\ \E i, j \in fs : i # j /\ F(i).c = n /\ F(j).c = n /\ Here(F(i).v)
       \/ C = <<FieldName[n]>> /\ \E i \in fs : F(i).c = n /\ F(i).s # FieldSigCode[n] /\ Here(F(i).v)
       \/ FieldErrName[n] # "" /\ C[1] = FieldErrName[n]
            /\ \E i \in fs : F(i).c = n /\ F(i).s = B("s") /\ NameTrue(FieldKind[n], Tail(F(i).v[1]), Tail(C))
P23 == /\ (X.k = "hnew" /\ X.r.st = "err") =>
            \E n \in Lacks(X.m) : X.r.c = <<"Missing" \o FieldName[n]>>
       /\ (X.k = "hfld" /\ X.r.st = "err") => HfldTrue(X)
===============================================================================
