------------------------------ MODULE T_Reasons ------------------------------
(* P23 for messages: the reason given for refusing to decode or encode is     *)
(* true of the message.  The unmarshalling machine runs over the bytes; pre   *)
(* is its state before it stopped, which says what was read until then.       *)
(*   dec  in fds r        enc  m r                                            *)
EXTENDS Wire, Values, Reasons, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, d, pre
vars == <<c, d, pre>>
X == Rec[c]
SetOf(q) == {q[i] : i \in 1..Len(q)}
Refused == X.k \in {"dec"} /\ X.r.st = "err"

Env == [in |-> X.in, fds |-> X.fds, vmax |-> 4]
Init == c \in 1..Len(Rec) /\ d = DInit /\ pre = DInit
Next == /\ Refused /\ ~Done(d)
        /\ d' = DStep(Env, d)
        /\ pre' = d
        /\ UNCHANGED c

C == X.r.c
In(i, name, ok) == Len(X.in) >= i /\ ~ok /\ C = W1(name, X.in[i])

\* a size the message declares goes beyond the bytes there are
Declared ==
  \/ \E i \in 1..Len(pre.stk) : pre.stk[i].t = "arr" /\ pre.stk[i].end > BufLen(Env)
  \/ pre.ph = "body" /\ pre.bend > BufLen(Env)
  \/ pre.ph \in {"fields", "check"} /\ pre.off + pre.blen > BufLen(Env)

\* --- the fields read so far
Ht == pre.ht
ValueAt(k) == Items(SubSeq(pre.hf, k, Len(pre.hf)))[1]
Text(k) == Tail(pre.hf[k])
Twice(n) == Cardinality({i \in 1..Len(Ht) : Ht[i].c = n}) > 1
Carried(n) == \E i \in 1..Len(Ht) : Ht[i].c = n /\ X.r.v = <<ValueAt(Ht[i].k)>>
WrongType(n) == \E i \in 1..Len(Ht) :
                  Ht[i].c = n /\ Ht[i].s # FieldSigCode[n] /\ X.r.v = <<ValueAt(Ht[i].k)>>
BadName(n) == \E i \in 1..Len(Ht) :
                /\ Ht[i].c = n /\ Ht[i].s \in {B("s"), B("o")}
                /\ NameTrue(FieldKind[n], Text(Ht[i].k), Tail(C))
Absent(n) == \A i \in 1..Len(Ht) : Ht[i].c # n
FieldsTrue ==
  \/ \E i \in 1..Len(Ht) : Ht[i].c \notin 1..9 /\ C = W1("InvalidNumber", Ht[i].c)
  \/ \E n \in 1..9 :
       \/ C = <<"Multiple" \o FieldName[n]>> /\ Twice(n) /\ Carried(n)
       \/ C = <<FieldName[n]>> /\ WrongType(n)
       \/ FieldErrName[n] # "" /\ C[1] = FieldErrName[n] /\ BadName(n)
CheckTrue ==
  /\ pre.ph = "check"
  /\ \/ \E n \in SetOf(Required(pre.fix[2])) : C = <<"Missing" \o FieldName[n]>> /\ Absent(n)
     \/ /\ C[1] = "BodySignatureMissing" /\ Absent(8)
        /\ pre.bend # <<0, 0, 0, 0>> /\ C = <<"BodySignatureMissing">> \o Words(pre.bend)
     \/ /\ C[1] = "BodyLengthZero" /\ pre.bend = <<0, 0, 0, 0>>
        /\ \E i \in 1..Len(Ht) : Ht[i].c = 8 /\ Text(Ht[i].k) # <<>>
                                 /\ C = <<"BodyLengthZero">> \o Words(Text(Ht[i].k))

\* numbers from 2^30 on are one number to the specification (see U32 of Wire)
SameWords(w, n) == /\ Len(w) = Len(n)
                   /\ \A i \in 1..Len(n) : IF n[i] >= 1073741824 THEN Len(w[i]) >= 10 ELSE w[i] = ToString(n[i])
Exact == {"InvalidBoolean", "StringNotNull", "Padding", "ArrayTooBig", "ArrayInvalidLength",
          "NotEnoughFds", "BodyLength", "VariantDepth", "Utf8Error"}
DecTrue ==
  /\ C # <<>>
  /\ \/ In(1, "Endianness", X.in[1] \in {108, 66})
     \/ In(2, "MessageType", X.in[2] \in 1..4)
     \/ In(3, "MessageFlags", X.in[3] \in 0..7)
     \/ /\ C[1] = "NotEnoughBytes" /\ X.r.n[1] = BufLen(Env) /\ X.r.n[2] > X.r.n[1]
        /\ d.err[1] = "NotEnoughBytes" \/ Declared
     \/ C[1] \in Exact /\ C[1] = d.err[1] /\ SameWords(Tail(C), Tail(d.err))
     \/ C[1] = "ObjectPathError" /\ d.err[1] = "ObjectPathError" /\ NameTrue("path", d.txt, Tail(C))
     \/ C[1] = "SignatureError" /\ d.err[1] = "SignatureError"
        /\ \E one \in BOOLEAN : SigTrue(d.txt, one, FALSE, Tail(C))
     \/ FieldsTrue
     \/ CheckTrue

\* --- encoding: some type in the message is not one D-Bus can write
Texts(m) == {SigOf(m.b)} \cup {Tail(m.b[i]) : i \in {i \in 1..Len(m.b) : m.b[i][1] \in {103, 118, 97}}}
EncTrue ==
  /\ X.r.c # <<>> /\ X.r.c[1] = "SignatureError"
  /\ \E s \in Texts(X.m) : \E one \in BOOLEAN : SigTrue(s, one, TRUE, Tail(X.r.c))

P23 == /\ (Refused /\ Done(d)) => (d.ph = "err" => DecTrue)
       /\ (X.k = "enc" /\ X.r.st = "err") => EncTrue
=============================================================================
