------------------------------ MODULE T_Stream ------------------------------
(* Validates recorded receivers against Stream.tla, and what they delivered   *)
(* against the unmarshalling machine.  A record:                              *)
(*   ms    the messages, as bytes                 fd    their descriptors     *)
(*   obs   observed outcomes of decode calls                                  *)
(*   runs  event lists: <<0, n, f>> n bytes and f descriptors arrive,         *)
(*         <<1, have, need>> wait, <<2, x, len, nfd>> deliver obs[x],         *)
(*         <<3>> refused                                                      *)
EXTENDS Wire, Values, Stream, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c,            \* record
          k, d, n, tm,  \* message being read by the machine, its state, tokens
          good,         \* obs[i] of the messages read so far are what they say
          r, e,         \* run, next event
          s, ok         \* state of the stream, all events so far were possible
vars == <<c, k, d, n, tm, good, r, e, s, ok>>

X == Rec[c]
Env == [in |-> X.ms[k], fds |-> X.fd[k], vmax |-> 4]
Init == /\ c \in 1..Len(Rec)
        /\ k = 1 /\ d = DInit /\ n = 0 /\ tm = TRUE /\ good = <<>>
        /\ r = 1 /\ e = 1 /\ s = SInit /\ ok = TRUE

\* ---- the machine reads message k; obs[k] has to be what it reads
O(i) == X.obs[i]
Toks == IF k <= Len(X.obs) /\ O(k).st = "ok" THEN O(k).m.b ELSE <<>>
Reading == k <= Len(X.ms)
Step ==
  /\ Reading /\ ~Done(d)
  /\ LET x == DStep(Env, d)  m == Len(x.out) IN
     /\ d' = x
     /\ n' = IF x.ph = "err" THEN n ELSE n + m
     /\ tm' = (tm /\ (x.ph # "err" => (n + m <= Len(Toks) /\ SubSeq(Toks, n + 1, n + m) = x.out)))
  /\ UNCHANGED <<c, k, good, r, e, s, ok>>
SameHeader(o) ==
  /\ o.bad = 0 /\ o.le = (IF d.le THEN 1 ELSE 0)
  /\ o.ty = d.fix[2] /\ o.fl = d.fix[3] /\ o.ver = d.fix[4] /\ o.ser = SubSeq(d.fix, 5, 8)
  /\ \A i \in 1..9 : i # 8 => o.f[i] = d.hv[i]
Finish ==
  /\ Reading /\ Done(d)
  /\ good' = Append(good,
       /\ d.ph = "ok" /\ d.off = Len(X.ms[k]) /\ d.mfd = Len(X.fd[k])
       /\ k <= Len(X.obs) /\ O(k).st = "ok" /\ tm /\ n = Len(Toks) /\ SameHeader(O(k).m))
  /\ k' = k + 1 /\ d' = DInit /\ n' = 0 /\ tm' = TRUE
  /\ UNCHANGED <<c, r, e, s, ok>>

\* ---- the events
Shape == [i \in 1..Len(X.ms) |-> [len |-> Len(X.ms[i]), fds |-> Len(X.fd[i])]]
Ev == X.runs[r][e]
Event ==
  /\ ~Reading /\ r <= Len(X.runs) /\ e <= Len(X.runs[r])
  /\ LET v == Ev  ms == Shape IN
     CASE v[1] = 0 -> ok' = (ok /\ CanArrive(ms, s, v[2], v[3])) /\ s' = Arrive(s, v[2], v[3])
       [] v[1] = 1 -> ok' = (ok /\ CanWait(ms, s, v[2], v[3])) /\ s' = Wait(s, v[3])
       [] v[1] = 2 -> ok' = (ok /\ v[2] <= Len(good) /\ CanDeliver(ms, s, v[2], v[3], v[4]))
                      /\ s' = Deliver(s, v[3], v[4])
       [] OTHER -> ok' = FALSE /\ s' = s
  /\ e' = e + 1 /\ UNCHANGED <<c, k, d, n, tm, good, r>>
EndRun ==
  /\ ~Reading /\ r <= Len(X.runs) /\ e > Len(X.runs[r])
  /\ ok' = (ok /\ s.got = Len(X.ms) /\ Have(s) = 0)
  /\ r' = r + 1 /\ e' = 1 /\ s' = SInit
  /\ UNCHANGED <<c, k, d, n, tm, good>>
Next == Step \/ Finish \/ Event \/ EndRun

P22 == /\ ok
       /\ \A i \in 1..Len(good) : good[i]
       /\ ~Reading => (r <= Len(X.runs) => (ok => Sound(Shape, s)))
P05 == \A i \in 1..Len(X.obs) : X.obs[i].st \in {"ok", "err"}
=============================================================================
