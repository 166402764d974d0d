------------------------------- MODULE Stream -------------------------------
(* A receiver on a byte stream.  The sender writes messages back to back; the *)
(* descriptors of a message travel with one of its bytes, or earlier.  The    *)
(* receiver keeps what arrived and was not consumed, tries to decode it, and  *)
(*   waits    when there is no whole message: it is told how many bytes there *)
(*            are and that more are needed, but never more than the message   *)
(*            has (otherwise a receiver that waits for that many would stick) *)
(*   delivers when there is: it drops the message's bytes and descriptors.    *)
(* ms[i] = [len |-> bytes, fds |-> descriptors] of message i.                 *)
EXTENDS Naturals, Sequences

SInit == [arr |-> 0, used |-> 0, got |-> 0, farr |-> 0, fused |-> 0, need |-> 0]

RECURSIVE Upto(_, _)
Upto(ms, i) == IF i = 0 THEN 0 ELSE Upto(ms, i - 1) + ms[i].len
RECURSIVE FdsUpto(_, _)
FdsUpto(ms, i) == IF i = 0 THEN 0 ELSE FdsUpto(ms, i - 1) + ms[i].fds

Have(s) == s.arr - s.used
More(ms, s) == s.got < Len(ms)
Next1(ms, s) == ms[s.got + 1]
\* whether the next message is there as a whole
Whole(ms, s) == More(ms, s) /\ Have(s) >= Next1(ms, s).len

\* Number of messages of which a byte arrived.
Begun(ms, a) == IF a = 0 THEN 0
                ELSE CHOOSE i \in 1..Len(ms) : Upto(ms, i - 1) < a /\ a <= Upto(ms, i)

CanArrive(ms, s, n, f) ==
  /\ n > 0 \/ f > 0
  /\ s.arr + n <= Upto(ms, Len(ms))
  /\ s.farr + f <= FdsUpto(ms, Len(ms))
  /\ s.farr + f >= FdsUpto(ms, Begun(ms, s.arr + n))
Arrive(s, n, f) == [s EXCEPT !.arr = @ + n, !.farr = @ + f]

CanWait(ms, s, have, need) ==
  /\ ~Whole(ms, s)
  /\ have = Have(s)
  /\ have < need
  /\ More(ms, s) => need <= Next1(ms, s).len
Wait(s, need) == [s EXCEPT !.need = need]

CanDeliver(ms, s, k, len, nfd) ==
  /\ Whole(ms, s)
  /\ k = s.got + 1
  /\ len = Next1(ms, s).len
  /\ nfd = Next1(ms, s).fds
Deliver(s, len, nfd) == [s EXCEPT !.used = @ + len, !.got = @ + 1, !.fused = @ + nfd, !.need = 0]

\* What the stream promises.
Sound(ms, s) ==
  /\ s.used = Upto(ms, s.got) /\ s.fused = FdsUpto(ms, s.got)      \* in order, nothing lost
  /\ s.used <= s.arr /\ s.fused <= s.farr                          \* never early
=============================================================================
