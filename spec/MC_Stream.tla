------------------------------ MODULE MC_Stream ------------------------------
(* All cuts of short streams, all answers a decoder may give within CanWait   *)
(* and CanDeliver, for a receiver that tries at every chance (eager) and one  *)
(* that waits for the number of bytes it was told (patient).                  *)
EXTENDS Stream
CONSTANTS MaxMsgs, MaxLen, MaxFds
VARIABLES ms, s, patient
vars == <<ms, s, patient>>

Shapes == [len : 1..MaxLen, fds : 0..MaxFds]
Init == /\ ms \in UNION {[1..n -> Shapes] : n \in 1..MaxMsgs}
        /\ s = SInit /\ patient \in BOOLEAN

Total == Upto(ms, Len(ms))
DoArrive == \E n \in 0..MaxLen, f \in 0..(MaxFds * MaxMsgs) :
              CanArrive(ms, s, n, f) /\ s' = Arrive(s, n, f) /\ UNCHANGED <<ms, patient>>
Due == patient => Have(s) >= s.need
DoWait == Due /\ \E need \in 1..(MaxLen + 1) :
            CanWait(ms, s, Have(s), need) /\ s' = Wait(s, need) /\ UNCHANGED <<ms, patient>>
DoDeliver == Due /\ \E k \in 1..MaxMsgs, len \in 1..MaxLen, f \in 0..MaxFds :
            CanDeliver(ms, s, k, len, f) /\ s' = Deliver(s, len, f) /\ UNCHANGED <<ms, patient>>
Next == DoArrive \/ DoWait \/ DoDeliver
Spec == Init /\ [][Next]_vars /\ WF_vars(DoArrive) /\ WF_vars(DoDeliver)

Safe == Sound(ms, s)
\* a receiver that may try and has a whole message can deliver it
NeverStuck == Whole(ms, s) => Due /\ ENABLED DoDeliver
InOrder == [][s'.got \in {s.got, s.got + 1}]_vars
AllArrive == <>(s.got = Len(ms))
=============================================================================
