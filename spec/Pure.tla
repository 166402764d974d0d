-------------------------------- MODULE Pure --------------------------------
(* A library whose calls know nothing of each other.  Calls begin and end on  *)
(* threads; a call that ends gives the outcome its operation has when it is   *)
(* the only call of a process.                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS OpsCount, Threads, Idle
VARIABLE busy            \* what each thread is doing: an operation or Idle

PInit == busy = [t \in Threads |-> Idle]
Begin(t, op) == /\ busy[t] = Idle /\ op \in 1..OpsCount
                /\ busy' = [busy EXCEPT ![t] = op]
End(t, op)   == /\ busy[t] = op /\ op # Idle
                /\ busy' = [busy EXCEPT ![t] = Idle]
PNext == \E t \in Threads, op \in 1..OpsCount : Begin(t, op) \/ End(t, op)
=============================================================================
