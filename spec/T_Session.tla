----------------------------- MODULE T_Session -----------------------------
(* Validates recorded histories of API calls, one call per step.  Record:     *)
(*   ops  the calls                                                           *)
(*   out  after each call: [st, regs], regs[j] = <<>> if what register j      *)
(*        shows is the same as before, <<observation>> otherwise              *)
EXTENDS Session, Wire, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 64
NRegs == 3
VARIABLES c, i,
          regs, old,        \* the registers now, and before the last call
          st                \* what the last call answered
vars == <<c, i, regs, old, st>>

X == Rec[c]
Fresh == [j \in 1..NRegs |-> Nothing]
Init == /\ c \in {n \in 1..Len(Rec) : n <= Lanes}
        /\ i = 0 /\ regs = Fresh /\ old = Fresh /\ st = "ok"
Call1 == /\ i < Len(X.ops) /\ i < Len(X.out)
         /\ LET r == Do(regs, X.ops[i + 1]) IN regs' = r.regs /\ st' = r.st
         /\ old' = regs /\ i' = i + 1 /\ UNCHANGED c
NextRecord == /\ (i = Len(X.ops) \/ i = Len(X.out))
              /\ c + Lanes <= Len(Rec) /\ c' = c + Lanes
              /\ i' = 0 /\ regs' = Fresh /\ old' = Fresh /\ st' = "ok"
Next == Call1 \/ NextRecord

---------------------------------------------------------------------------
Out == X.out[i]
Op == X.ops[i]
Answered == i > 0

\* The header of an encoding, as the unmarshalling machine reads it.
RECURSIVE HeadRun(_, _)
HeadRun(env, d) == IF d.ph \in {"ok", "err", "body"} THEN d ELSE HeadRun(env, DStep(env, d))
Head8(e) == HeadRun([in |-> e.out, fds |-> e.ofds, vmax |-> 64], DInit)

\* Observation o of register r, without what is derived from the body.  What
\* has no accessor is seen in the parts of a message, if it has any.
Unseen(r) == IF r.k = "m" /\ ~Typed(r) THEN {"le", "fl", "ver"} ELSE {}
Plainly(o, r) ==
  /\ o.bad = 0
  /\ \A n \in DOMAIN Shows(r) \ Unseen(r) : o[n] = Shows(r)[n]
Derived(o, r) ==
  r.k = "m" =>
    /\ IF Typed(r)
       THEN /\ o.sig = <<SigOf(r.b)>>
            /\ o.sp.st = "ok" /\ o.sp.sig = WireSig(r) /\ o.sp.b = r.b
       ELSE o.sig = <<>> /\ o.sp.st = "err"
    /\ IF CanEncode(r)
       THEN /\ o.e.st = "ok" /\ o.e.ofds = FdsOf(r.b)
            /\ LET h == Head8(o.e) IN
               h.ph # "err" /\ h.hv[8] = WireSig(r) /\ h.hv[9] = WireFds(r)
       ELSE o.e.st = "err"
\* Encoded, sent and decoded it is the same message.
Sent(o, r) ==
  (r.k = "m" /\ CanDecode(r)) =>
    o.e.st = "ok" /\ o.e.d.st = "ok" /\ Plainly(o.e.d.m, RoundTrip(r))

Look(P(_, _)) ==
  \A j \in 1..NRegs :
    IF Out.regs[j] = <<>> THEN Shows(regs[j]) = Shows(old[j])
    ELSE Out.regs[j][1].k = regs[j].k /\ (regs[j].k # "none" => P(Out.regs[j][1], regs[j]))

IsReply == Op.o \in ReplyOps
P18 == (Answered /\ IsReply) =>
         /\ Out.st = st
         /\ Look(LAMBDA o, r : Plainly(o, r) /\ Sent(o, r))
P19 == Answered =>
         /\ Out.st = st
         /\ Look(Plainly)
P20 == Answered => Look(Derived)
P05 == Answered => Out.st # "panic"
=============================================================================
