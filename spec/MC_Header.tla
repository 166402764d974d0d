------------------------------ MODULE MC_Header -----------------------------
(* Exhaustive: the machine takes a header exactly when it obeys the rules of  *)
(* D-Bus, stated as a whole.  For every list of up to N fields - every code,  *)
(* of the right and of a wrong type, with a good and a bad value - and every  *)
(* type of message, marshalled and read:                                      *)
(*   - accepted exactly when Good;                                            *)
(*   - accepted fields are what was written;                                  *)
(*   - the order of the fields does not matter;                               *)
(*   - the reason given for refusing is true;                                 *)
(*   - in the prefixes of a header there is nothing wrong.                    *)
EXTENDS Wire, Marshal
CONSTANT N
VARIABLES fs
Fld(c, t, v) == [c |-> c, t |-> t, v |-> v]
One == <<1, 0, 0, 0>>
Good1 == <<B("/a"), B("a.b"), B("m"), B("a.b"), One, B("a.b"), B(":1.2"), <<>>, One>>
Bad1 == <<<<>>, B("m"), B("a.b"), B("a..b"), <<>>, B("m"), B(":"), B("y"), <<>>>>
Pool == {Fld(c, HeaderType[c], Good1[c]) : c \in 1..9}
        \cup {Fld(c, HeaderType[c], Bad1[c]) : c \in {2, 3, 4, 6, 7, 8}}
        \cup {Fld(c, IF c = 1 THEN "s" ELSE "o", B("/a")) : c \in 1..9}
        \cup {Fld(c, "s", B("a")) : c \in {0, 10}}
Init == fs = <<>>
Next == Len(fs) < N /\ \E x \in Pool : fs' = Append(fs, x)

Toks(x) == <<<<40>>, <<121, x.c>>, <<118>> \o B(x.t), B(x.t) \o x.v, <<41>>>>
Fields == <<<<97>> \o B("(yv)")>> \o FoldLeft(LAMBDA acc, x : acc \o Toks(x), <<>>, fs) \o <<<<93>>>>
Message(ty, le, toks) ==
  Pad(Marshalled(<<IF le THEN 108 ELSE 66, ty, 0, 1>> \o Zeros(4) \o Ord(<<5, 0, 0, 0>>, le), toks, le, <<>>), 8)
Env(b) == [in |-> b, fds |-> <<>>, vmax |-> 4]
Read1(ty, le) == Decode(Env(Message(ty, le, Fields))).d

Kind == <<"path", "interface", "member", "error", "", "bus", "bus", "", "">>
Needs == <<{1, 3}, {5}, {4, 5}, {1, 2, 3}>>
Good(ty) ==
  /\ \A i \in 1..Len(fs) : /\ fs[i].c \in 1..9
                           /\ fs[i].t = HeaderType[fs[i].c]
                           /\ Kind[fs[i].c] # "" => Grammar(Kind[fs[i].c], fs[i].v)
                           /\ fs[i].c = 8 => fs[i].v = <<>>        \* there is no body
  /\ \A i, j \in 1..Len(fs) : fs[i].c = fs[j].c => i = j
  /\ \A c \in Needs[ty] : \E i \in 1..Len(fs) : fs[i].c = c
Taken(d) == d.ph = "ok"
Kept(d, ty, n) == /\ \A i \in 1..Len(fs) : d.hv[fs[i].c] = <<fs[i].v>>
                  /\ Cardinality({c \in 1..9 : d.hv[c] # <<>>}) = Len(fs)
                  /\ d.off = n /\ d.fix[2] = ty
Back(q) == <<q[1]>> \o FoldLeft(LAMBDA acc, x : Toks(x) \o acc, <<>>, fs) \o <<q[Len(q)]>>
Order == LET d == Decode(Env(Message(4, FALSE, Back(Fields)))).d  e == Read1(4, FALSE) IN
         Taken(d) = Taken(e) /\ d.hv = e.hv /\ Taken(d) = Good(4)
Has(c) == {i \in 1..Len(fs) : fs[i].c = c}
Why(d, ty) ==
  \/ d.err = <<"BodyLengthZero">> /\ \E i \in Has(8) : fs[i].v # <<>>
  \/ \E c \in 1..9 :
       \/ d.err = <<"Missing" \o FieldName[c]>> /\ c \in Needs[ty] /\ Has(c) = {}
       \/ d.err = <<"Multiple" \o FieldName[c]>> /\ Cardinality(Has(c)) > 1
       \/ d.err = <<FieldName[c]>> /\ \E i \in Has(c) : fs[i].t # HeaderType[c]
       \/ FieldErrName[c] # "" /\ d.err[1] = FieldErrName[c] /\ \E i \in Has(c) : ~Grammar(Kind[c], fs[i].v)
  \/ \E i \in 1..Len(fs) : fs[i].c \notin 1..9 /\ d.err = <<"InvalidNumber", fs[i].c>>
Rules == \A ty \in 1..4 :
  LET b == Message(ty, TRUE, Fields)  d == Decode(Env(b)).d IN
  IF Good(ty) THEN Taken(d) /\ Kept(d, ty, Len(b)) ELSE ~Taken(d) /\ Why(d, ty)
Cut == LET b == Message(1, TRUE, Fields) IN
       Good(1) => \A n \in 0..(Len(b) - 1) :
         LET d == Decode(Env(SubSeq(b, 1, n))).d IN d.ph = "err" /\ d.err[1] = "NotEnoughBytes" /\ d.err[3] <= Len(b)
=============================================================================
