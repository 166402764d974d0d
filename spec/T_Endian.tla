------------------------------ MODULE T_Endian ------------------------------
(* The two byte orders of one message.  A record has two sides a and b, each  *)
(* with its bytes, descriptors and the outcome of decoding; lib = 1 when both *)
(* were written by the library from one message (which differed in its byte   *)
(* order only), 0 when they were written independently (and may be faulty).   *)
(* Two unmarshalling machines read the sides in lockstep: as long as the      *)
(* sides are the same message, both are at the same offset, in the same       *)
(* construct, and read the same value.                                        *)
EXTENDS Wire, Values, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, da, db, n, tma, tmb, same
vars == <<c, da, db, n, tma, tmb, same>>

X == Rec[c]
Env(x) == [in |-> x.in, fds |-> x.fds, vmax |-> 4]
Toks(x) == IF x.r.st = "ok" THEN x.r.m.b ELSE <<>>
Init == /\ c \in 1..Len(Rec)
        /\ da = DInit /\ db = DInit /\ n = <<0, 0>>
        /\ tma = TRUE /\ tmb = TRUE /\ same = TRUE

Adv(x, d, e, i) == IF e.ph = "err" THEN n[i] ELSE n[i] + Len(e.out)
Match(x, e, i) == e.ph # "err" =>
  /\ n[i] + Len(e.out) <= Len(Toks(x))
  /\ SubSeq(Toks(x), n[i] + 1, n[i] + Len(e.out)) = e.out

\* everything but the byte order
Alike(a, b) ==
  /\ a.ph = b.ph /\ a.off = b.off /\ a.stk = b.stk /\ a.out = b.out /\ a.err = b.err
  /\ (a.ph \notin {"fixed", "err"}) => Tail(a.fix) = Tail(b.fix) /\ a.le # b.le
  /\ a.hf = b.hf /\ a.ht = b.ht /\ a.hv = b.hv /\ a.bend = b.bend /\ a.blen = b.blen /\ a.mfd = b.mfd

Turn(x, d) == IF Done(d) THEN d ELSE DStep(Env(x), d)
Next ==
  /\ ~(Done(da) /\ Done(db))
  /\ LET a == Turn(X.a, da)  b == Turn(X.b, db) IN
     /\ da' = a /\ db' = b
     /\ tma' = (tma /\ (Done(da) \/ Match(X.a, a, 1)))
     /\ tmb' = (tmb /\ (Done(db) \/ Match(X.b, b, 2)))
     /\ n' = <<IF Done(da) THEN n[1] ELSE Adv(X.a, da, a, 1), IF Done(db) THEN n[2] ELSE Adv(X.b, db, b, 2)>>
     /\ same' = (same /\ Alike(a, b))
  /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Complete == Done(da) /\ Done(db)
\* o is what the machine read
Is(o, d, tm, cnt) ==
  /\ o.st = "ok" /\ tm /\ cnt = Len(o.m.b) /\ o.off = d.off /\ o.ofd = d.mfd
  /\ o.m.bad = 0 /\ o.m.le = (IF d.le THEN 1 ELSE 0)
  /\ o.m.ty = d.fix[2] /\ o.m.fl = d.fix[3] /\ o.m.ver = d.fix[4] /\ o.m.ser = SubSeq(d.fix, 5, 8)
  /\ \A i \in 1..9 : i # 8 => o.m.f[i] = d.hv[i]

P21 ==
  Complete =>
    /\ X.lib = 1 => same /\ da.ph = "ok" /\ Len(X.a.in) = Len(X.b.in) /\ X.a.fds = X.b.fds
                    /\ da.off = Len(X.a.in)
    /\ IF da.ph = "ok" THEN Is(X.a.r, da, tma, n[1]) ELSE X.a.r.st # "ok"
    /\ IF db.ph = "ok" THEN Is(X.b.r, db, tmb, n[2]) ELSE X.b.r.st # "ok"
    /\ (same /\ da.ph = "ok") =>
         [X.a.r.m EXCEPT !.le = 0] = [X.b.r.m EXCEPT !.le = 0]
\* the specification itself: what the harness wrote is one message
Paired == (Complete /\ X.lib = 0 /\ da.ph = "ok" /\ db.ph = "ok") => Len(X.a.in) = Len(X.b.in)
=============================================================================
