---------------------------- MODULE Gen_Session ----------------------------
(* Histories of the session model for the real code to follow.  Run in        *)
(* simulation mode; every history of length Len is written to the file OUT.   *)
EXTENDS SessionOps, TLC, Json, IOUtils
CONSTANT Length
VARIABLES regs, hist, done
Init == regs = [j \in Regs |-> Nothing] /\ hist = <<>> /\ done = FALSE
Go(x) == LET r == Do(regs, x) IN
         /\ r.st # "skip" /\ regs' = r.regs /\ hist' = Append(hist, x) /\ done' = FALSE
Some == \E j \in Regs : regs[j].k # "none"
More == Len(hist) < Length
Hdr == More /\ Len(hist) < 4 /\ \E x \in {RandomElement(HdrOps)} : Go(x)
New == More /\ \E x \in {RandomElement(CallOps)} : Go(x)
Mk  == More /\ \E x \in {RandomElement(MkOps)} : Go(x)
Of(o) == {x \in TwoOps : x.o = o}
Two(o) == More /\ Some /\ \E x \in {RandomElement(Of(o))} : Go(x)
Ser == More /\ Some /\ \E x \in {RandomElement(SerOps)} : Go(x)
Add == More /\ Some /\ \E x \in {RandomElement(AddOps)} : Go(x)
Txt == More /\ Some /\ \E x \in {RandomElement(TextOps)} : Go(x)
End == ~More /\ ~done /\ done' = TRUE /\ UNCHANGED <<regs, hist>>
Next == End \/ Hdr \/ New \/ Mk \/ Two("clone") \/ Two("split") \/ Two("swap") \/ Two("rt")
        \/ Two("ret") \/ Two("upath") \/ Two("uif") \/ Two("umem") \/ Ser \/ Add \/ Txt
Written ==
  done =>
    Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
