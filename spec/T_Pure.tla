------------------------------- MODULE T_Pure -------------------------------
(* Validates recorded histories of calls against Pure.tla.                    *)
(*   fresh  res       the outcome of every operation alone in a process       *)
(*   hist   ev        calls one after the other: [op, outcome, args same]     *)
(*   par    ev        calls on threads: [thread, op, outcome, args same], the *)
(*                    outcome is "" where the call begins                     *)
EXTENDS Pure, TLC, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
Alone == Rec[1].res
Piece == 100

VARIABLES c, i
vars == <<c, i, busy>>
X == Rec[c]

Right(op, outcome, same) == outcome = Alone[op] /\ same = 1

Init == c \in 1..Len(Rec) /\ i = 0 /\ PInit
Hist == /\ X.k = "hist" /\ i < Len(X.ev)
        /\ i' = IF i + Piece < Len(X.ev) THEN i + Piece ELSE Len(X.ev)
        /\ UNCHANGED <<c, busy>>
Par == /\ X.k = "par" /\ i < Len(X.ev)
       /\ LET e == X.ev[i + 1] IN
          IF e[3] = "" THEN Begin(e[1], e[2]) ELSE End(e[1], e[2])
       /\ i' = i + 1 /\ UNCHANGED c
Next == Hist \/ Par

P24 ==
  /\ (X.k = "hist" /\ i > 0) =>
       \A n \in (IF i > Piece THEN i - Piece + 1 ELSE 1)..i : Right(X.ev[n][1], X.ev[n][2], X.ev[n][3])
  /\ (X.k = "par" /\ i > 0 /\ X.ev[i][3] # "") => Right(X.ev[i][2], X.ev[i][3], X.ev[i][4])
\* the recording of the threads is one: a call ends where it began
Recorded == (X.k = "par" /\ i < Len(X.ev)) => ENABLED Next
P05 == X.k = "fresh" => \A n \in 1..Len(X.res) : X.res[n] \notin {"panic", "crash"}
=============================================================================
