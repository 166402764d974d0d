----------------------------- MODULE MC_Session -----------------------------
(* The session model explored exhaustively up to a number of calls.           *)
EXTENDS SessionOps, TLC
CONSTANT Depth, MaxBody
VARIABLES regs, old, op, st
vars == <<regs, old, op, st>>

NoOp == [o |-> "", a |-> 1, d |-> 1]
Fresh == [j \in Regs |-> Nothing]
Init == regs = Fresh /\ old = Fresh /\ op = NoOp /\ st = "ok"

\* Where to start from: headers and calls of every kind, in register 1.
Small(S) == {x \in S : x.d = 1}
Start == {x \in Small(HdrOps) : x.le = 0 /\ x.f[9] = <<>>} \cup Small(CallOps)
Go(x) == LET r == Do(regs, x) IN
         /\ r.st # "skip"
         /\ \A j \in Regs : Is(r.regs[j], "m") => Len(r.regs[j].b) <= MaxBody
         /\ regs' = r.regs /\ st' = r.st /\ old' = regs /\ op' = x
Next == /\ TLCGet("level") <= Depth
        /\ IF TLCGet("level") = 1 THEN \E x \in Start : Go(x)
           ELSE \E x \in MkOps \cup TwoOps \cup SerOps \cup AddOps \cup TextOps : Go(x)

\* Registers that matter for what comes next; op, old and st are only looked at.
Here(j) == regs[j].k # "none"

\* Whatever was done, every message and header has what its type needs.
Complete == \A j \in Regs : Here(j) => FieldsOk(regs[j].ty, regs[j].f) /\ NamesOk(regs[j].f)
\* A call changes one register at most: the one it is about or the one it fills.
Frame == \A j \in Regs :
           regs[j] # old[j] => j = IF op.o \in {"ser", "add"} THEN op.a ELSE op.d
\* Failed calls change nothing.
NoChange == st \in {"err", "bad", "none"} => regs = old
\* Replies go back to where the call came from and are about it.
Answer ==
  (op.o \in ReplyOps /\ st \in {"ok", "refused"}) =>
    LET m == old[op.a]  x == regs[op.d] IN
    /\ x.k = "m" /\ x.f[5] = <<m.ser>> /\ x.f[6] = m.f[7] /\ x.f[7] = m.f[6]
    /\ x.le = m.le /\ x.fl = NoReply /\ x.ver = 1 /\ x.f[8] = <<>> /\ x.f[9] = <<>>
    /\ x.ty \in {RETURN, ERROR} /\ (x.ty = RETURN <=> op.o = "ret" /\ m.ty = CALL)
    /\ CanDecode(x)
    \* a reply is not answered by another return
    /\ Reply(x, [op EXCEPT !.o = "ret"]).st = "refused"
\* Sending keeps everything but what the header says of another body; sending
\* again keeps everything.
Sending ==
  \A j \in Regs : Is(regs[j], "m") =>
    LET m == regs[j]  x == RoundTrip(m) IN
    /\ x.b = m.b /\ x.f[8] = <<>> /\ WireSig(x) = WireSig(m) /\ WireFds(x) = WireFds(m)
    /\ RoundTrip(x) = x
\* Splitting and rebuilding writes the same bytes as the message itself.
Rebuilt ==
  (op.o = "split" /\ st = "ok") =>
    LET m == old[op.a]  x == [regs[op.d] EXCEPT !.k = "m", !.b = m.b] IN
    WireSig(x) = WireSig(m) /\ WireFds(x) = WireFds(m) /\ x.f[8] = WireSig(m)
=============================================================================
