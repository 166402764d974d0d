------------------------------- MODULE T_Text -------------------------------
(* Validates recordings about names, object paths, signatures and containers. *)
(* A record is one call, or (path) a history of calls on one object path,     *)
(* replayed one operation per step.                                           *)
EXTENDS Paths, Values, Reasons, Json, IOUtils, TLC

Rec == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 64                 \* records handled side by side

VARIABLES c,                \* record
          i,                \* operations of its history done
          p,                \* the object path, as the specification has it
          w                 \* what the specification says of the last operation
vars == <<c, i, p, w>>

X == Rec[c]
Ops(x) == IF x.k = "path" THEN x.ops ELSE <<>>
None == [p |-> <<>>, r |-> 1, x |-> <<>>]

Init == c \in {n \in 1..Len(Rec) : n <= Lanes} /\ i = 0 /\ p = <<>> /\ w = None
Step == /\ i < Len(Ops(X))
        /\ LET d == PathDo(p, X.ops[i + 1]) IN w' = d /\ p' = d.p
        /\ i' = i + 1 /\ UNCHANGED c
Move2 == /\ i = Len(Ops(X))
         /\ c + Lanes <= Len(Rec) /\ c' = c + Lanes
         /\ i' = 0 /\ p' = <<>> /\ w' = None
Next == Step \/ Move2

Has(q, v) == \E n \in 1..Len(q) : q[n] = v
SetOf(q) == {q[n] : n \in 1..Len(q)}

---------------------------------------------------------------------------
\* P10  names
Utf8Form(n) == n \in {2, 3}
NameOk(x) ==
  LET yes == Accepts(x.t, x.s) IN
  /\ \A n \in 1..3 : x.acc[n] = IF n > 1 /\ ~Utf8(x.s) THEN "na"
                                ELSE IF yes THEN "yes" ELSE "no"
  /\ yes => /\ x.txt = <<x.s>>
            /\ x.self = 1
            /\ \A n \in 1..Len(x.eq) : x.eq[n][2] = IF x.eq[n][1] = x.s THEN 1 ELSE 0
  /\ ~yes => x.txt = <<>>
SweepOk(x) ==
  LET yes == {b \in Byte : Accepts(x.t, x.a \o <<b>> \o x.b)} IN
  SetOf(x.by) = yes /\ SetOf(x.st) = yes /\ x.diff = <<>>

P10 == /\ X.k = "name" => NameOk(X)
       /\ X.k = "sweep" => SweepOk(X)

\* P11  paths
P11 == (X.k = "path" /\ i > 0) =>
         /\ X.out[i].r = w.r
         /\ X.out[i].t = PathText(p)
         /\ X.out[i].x = w.x
         /\ PathOk(p) /\ Accepts("path", X.out[i].t)

---------------------------------------------------------------------------
\* P12  signatures
RECURSIVE Starts(_, _)
Starts(s, q) == IF q > Len(s) THEN <<>> ELSE <<q>> \o Starts(s, TypeEnd(s, q))
SigShown(x, v) ==
  LET st == Starts(x.s, 1) IN
  /\ v.st = x.s /\ v.pr = <<x.s>> /\ v.disp = x.s
  /\ v.al = [n \in 1..Len(st) |-> Alignment(x.s[st[n]])]
  /\ v.sts = [n \in 1..Len(st) |-> SubSeq(x.s, st[n], TypeEnd(x.s, st[n]) - 1)]
SigRec(x) ==
  LET sg == ValidSig(x.s)  ty == ValidType(x.s) IN
  \A n \in 1..Len(x.r) :
    IF (IF n \in {1, 3} THEN sg ELSE ty)
    THEN x.r[n].st = "ok" /\ SigShown(x, x.r[n].v)
    ELSE x.r[n].st = "err"
SigSweep(x) ==
  /\ SetOf(x.sg) = {b \in Byte : ValidSig(x.a \o <<b>> \o x.b)}
  /\ SetOf(x.one) = {b \in Byte : ValidType(x.a \o <<b>> \o x.b)}
  /\ x.diff = <<>>
\* Types built by hand, of which some have no signature (too deep or empty).
TypeRec(x) ==
  /\ x.disp = x.s
  /\ ValidSig(x.s) => LET st == Starts(x.s, 1) IN
                      x.al = [n \in 1..Len(st) |-> Alignment(x.s[st[n]])]
  /\ IF ValidSig(x.s) THEN x.pr.st = "ok" /\ x.pr.t = x.s /\ x.enc = "ok" /\ x.back = <<1>>
     ELSE x.pr.st = "err" /\ x.enc = "err" /\ x.back = <<>>

P12 == /\ X.k = "sig" => SigRec(X)
       /\ X.k = "sigsweep" => SigSweep(X)
       /\ X.k = "type" => TypeRec(X)

---------------------------------------------------------------------------
\* P13  containers

ArrRec(x) ==
  LET es == Items(x.m)
      sigs == {SigOf(es[n]) : n \in 1..Len(es)}
      limits == ValidSig(x.a) /\ \A s \in sigs : ValidSig(s)
  IN /\ x.r.st # "panic"
     /\ limits => (x.r.st = "ok" <=> sigs \subseteq {x.a})
     /\ x.r.st = "ok" => /\ sigs \subseteq {x.a}
                         /\ x.r.e = x.a /\ x.r.h = x.m /\ x.r.o = x.m
     /\ (limits /\ x.r.st = "ok" /\ ValidSig(<<97>> \o x.a)) => x.r.ty = <<<<97>> \o x.a>>
StrRec(x) ==
  LET s == <<40>> \o SigOf(x.m) \o <<41>> IN
  /\ x.r.st = IF x.m = <<>> THEN "err" ELSE "ok"
  /\ x.r.st = "ok" => /\ x.r.h = x.m /\ x.r.o = x.m
                      /\ ValidSig(s) => x.r.ty = <<s>>
VtyRec(x) ==
  /\ DeepOutside(SigOf(x.m)) => x.r.st # "ok"
  /\ x.r.st # "panic"
  /\ ValidSig(SigOf(x.m)) => \/ x.r.st = "ok" /\ x.r.ty = SigOf(x.m)
                             \/ x.r.st = "build" /\ ~TypesValid(x.m)

P13 == /\ X.k = "arr" => ArrRec(X)
       /\ X.k = "str" => StrRec(X)
       /\ X.k = "vty" => VtyRec(X)

\* P14  limits
P14 == P10 /\ P12 /\ P13

---------------------------------------------------------------------------
\* P23  the reason given is true
P23 ==
  /\ X.k = "name" => \A n \in 1..Len(X.why) : NameTrue(X.t, X.s, X.why[n])
  /\ X.k = "sig" => \A n \in 1..Len(X.r) :
       X.r[n].st = "err" => SigTrue(X.s, n \in {2, 4}, FALSE, X.r[n].why)
  /\ (X.k = "type" /\ X.pr.st = "err") => SigTrue(X.s, FALSE, TRUE, X.pr.why)
  /\ (X.k = "arr" /\ X.r.st = "err") =>
       LET es == Items(X.m) IN
       IF X.r.why = <<"TypeMismatch">>
       THEN X.r.xy[1] = X.a /\ X.r.xy[2] # X.a /\ \E n \in 1..Len(es) : SigOf(es[n]) = X.r.xy[2]
       ELSE /\ Len(X.r.why) > 1 /\ X.r.why[1] = "TypeError"
            /\ \E n \in 1..Len(es) : SigTrue(SigOf(es[n]), TRUE, TRUE, Tail(X.r.why))
  /\ (X.k = "str" /\ X.r.st = "err") => X.r.why = <<"Empty">> /\ X.m = <<>>
  /\ (X.k = "vty" /\ X.r.st = "err") => SigTrue(SigOf(X.m), TRUE, TRUE, X.r.why)

---------------------------------------------------------------------------
\* P05  every call returns
P05 ==
  /\ X.k = "name" => \A n \in 1..3 : X.acc[n] \in {"yes", "no", "na"}
  /\ (X.k = "path" /\ i > 0) => X.out[i].r \in {0, 1}
  /\ X.k = "sig" => \A n \in 1..Len(X.r) : X.r[n].st \in {"ok", "err"}
  /\ X.k \in {"sweep", "sigsweep"} => ~Has(X.diff, B("panic"))
  /\ X.k = "type" => X.pr.st \in {"ok", "err"} /\ X.enc \in {"ok", "err"} /\ X.back # <<-2>>
  /\ X.k \in {"arr", "str", "vty"} => X.r.st # "panic"
=============================================================================
