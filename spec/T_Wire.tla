------------------------------- MODULE T_Wire -------------------------------
(* Validates recorded encode and decode runs against the unmarshalling        *)
(* machine of Wire.tla.  Each record is one behaviour: the machine is run     *)
(* over the recorded bytes, one action per step, and every token it reads is  *)
(* matched against the recorded value.                                        *)
(*   dec  in fds r            r = outcome of decoding                         *)
(*   enc  m r                 r = outcome of encoding, with r.d = outcome of  *)
(*                            decoding the result                             *)
(*   rec  in fds r x          decode (r), then encode (x)                     *)
(*   pre  in fds r cuts ext   decode of all prefixes, and with bytes appended *)
EXTENDS Wire, Values, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c,      \* record
          k,      \* run of the record
          d,      \* machine
          n, tm,  \* recorded tokens matched so far; all of them did match
          res     \* results of the finished runs
vars == <<c, k, d, n, tm, res>>

LibVariantDepth == 4
AnyVariantDepth == 64

EncOk(r) == r.st = "ok"
Run(in, fds, vmax, toks) == [env |-> [in |-> in, fds |-> fds, vmax |-> vmax], toks |-> toks]
TokensOf(r) == IF r.st = "ok" THEN r.m.b ELSE <<>>

Runs(x) ==
  CASE x.k \in {"dec", "pre"} -> <<Run(x.in, x.fds, LibVariantDepth, TokensOf(x.r))>>
    [] x.k = "enc" -> IF EncOk(x.r) THEN <<Run(x.r.out, x.r.ofds, AnyVariantDepth, x.m.b)>> ELSE <<>>
    [] x.k = "rec" -> <<Run(x.in, x.fds, LibVariantDepth, TokensOf(x.r))>>
                      \o (IF x.x.st = "ok"
                          THEN <<Run(x.x.out, x.x.ofds, AnyVariantDepth, TokensOf(x.r))>>
                          ELSE <<>>)

AllRead(x, i) == i > Len(Runs(x))

Init == /\ c \in 1..Len(Rec)
        /\ k = 1 /\ d = DInit /\ n = 0 /\ tm = TRUE /\ res = <<>>

\* One step of the machine.
Step ==
  LET run == Runs(Rec[c])[k]
      e == DStep(run.env, d)
      m == Len(e.out)
  IN /\ ~AllRead(Rec[c], k) /\ ~Done(d)
     /\ d' = e
     /\ n' = IF e.ph = "err" THEN n ELSE n + m
     /\ tm' = (tm /\ (e.ph # "err" => (n + m <= Len(run.toks) /\ SubSeq(run.toks, n + 1, n + m) = e.out)))
     /\ UNCHANGED <<c, k, res>>

\* The end of a run.
Finish ==
  LET run == Runs(Rec[c])[k] IN
  /\ ~AllRead(Rec[c], k) /\ Done(d)
  /\ res' = Append(res,
       [ok |-> d.ph = "ok", err |-> d.err, le |-> d.le, fix |-> d.fix, hv |-> d.hv,
        off |-> d.off, mfd |-> d.mfd, beg |-> d.off - d.blen,
        tm |-> tm /\ n = Len(run.toks)])
  /\ k' = k + 1 /\ d' = DInit /\ n' = 0 /\ tm' = TRUE
  /\ UNCHANGED c

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

X == Rec[c]
Complete == AllRead(X, k)

---------------------------------------------------------------------------
\* The fixed part and the fields of the observed message o are those read by
\* the machine; the signature field may be kept or dropped.
SameHeader(o, s) ==
  /\ o.bad = 0
  /\ o.le = (IF s.le THEN 1 ELSE 0)
  /\ o.ty = s.fix[2] /\ o.fl = s.fix[3] /\ o.ver = s.fix[4]
  /\ o.ser = SubSeq(s.fix, 5, 8)
  /\ \A i \in 1..9 : i # 8 => o.f[i] = s.hv[i]
  /\ o.f[8] \in {<<>>, s.hv[8]}
  /\ o.sig = IF s.hv[8] = <<>> THEN <<<<>>>> ELSE s.hv[8]

\* What decoding the encoded message m has to give.
DerivedUnixFds(m) == IF FdsOf(m.b) = <<>> THEN m.f[9] ELSE <<LE32(Len(FdsOf(m.b)))>>
SameMessage(o, m) ==
  /\ o.bad = 0
  /\ o.le = m.le /\ o.ty = m.ty /\ o.fl = m.fl /\ o.ver = m.ver /\ o.ser = m.ser
  /\ \A i \in 1..9 : i \notin {8, 9} => o.f[i] = m.f[i]
  /\ o.f[9] = DerivedUnixFds(m)
  /\ o.f[8] \in {<<>>, <<SigOf(m.b)>>}
  /\ o.sig = <<SigOf(m.b)>>
  /\ o.b = m.b

Outcome(r) == r.st \in {"ok", "err"}

---------------------------------------------------------------------------
\* P01  encode, then decode
P01 ==
  /\ (Complete /\ X.k = "enc" /\ X.r.st = "ok" /\ VDepth(X.m.b) <= LibVariantDepth) =>
       /\ X.r.d.st = "ok"
       /\ SameMessage(X.r.d.m, X.m)
       /\ X.r.d.off = Len(X.r.out)
       /\ X.r.d.ofd = Len(X.r.ofds)
  /\ (Complete /\ X.k = "enc" /\ TypesValid(X.m.b)) => X.r.st \in {"ok", "build", "bpanic"}

\* P02  the bytes are the marshalling of the message
P02 ==
  (Complete /\ X.k = "enc") =>
    IF ~TypesValid(X.m.b) THEN X.r.st \in {"err", "build", "bpanic"}
    ELSE /\ X.r.st \in {"ok", "build", "bpanic"}
         /\ X.r.st = "ok" =>
              LET s == res[1] IN
              /\ s.ok /\ s.tm
              /\ s.off = Len(X.r.out)
              /\ X.r.same = 1
              /\ s.fix = <<IF X.m.le = 1 THEN 108 ELSE 66, X.m.ty, X.m.fl, X.m.ver>> \o X.m.ser
              /\ \A i \in 1..7 : s.hv[i] = X.m.f[i]
              /\ s.hv[8] = IF X.m.b = <<>> THEN <<>> ELSE <<SigOf(X.m.b)>>
              /\ s.hv[9] = DerivedUnixFds(X.m)

\* P03  well-formed input is decoded to what it says
P03 ==
  (Complete /\ X.k \in {"dec", "rec", "pre"} /\ res[1].ok) =>
    /\ X.r.st = "ok"
    /\ res[1].tm
    /\ SameHeader(X.r.m, res[1])
    /\ X.r.off = res[1].off
    /\ X.r.ofd = res[1].mfd

\* P04  malformed input is rejected
P04 ==
  (Complete /\ X.k \in {"dec", "rec", "pre"} /\ ~res[1].ok) => X.r.st # "ok"

\* P05  every input has an outcome, which stays inside the input
P05 ==
  /\ (X.k \in {"dec", "rec", "pre"}) =>
       /\ Outcome(X.r)
       /\ X.r.st = "ok" => X.r.off \in 16..Len(X.in) /\ X.r.ofd \in 0..Len(X.fds)
  /\ (X.k = "rec") => X.x.st \in {"ok", "err", "none"}
  /\ (X.k = "enc") =>
       /\ X.r.st \in {"ok", "err", "build"}
       /\ X.r.st = "ok" => Outcome(X.r.d)

\* P06  prefixes ask for more bytes, following bytes do not matter
P06 ==
  (Complete /\ X.k = "pre" /\ res[1].ok) =>
    LET off == res[1].off IN
    /\ X.r.st = "ok" /\ X.r.off = off
    /\ \A i \in 1..Len(X.cuts) :
         LET cut == X.cuts[i]  have == i - 1 IN
         IF have < off
         THEN cut[1] = "NotEnoughBytes" /\ cut[2] = have /\ cut[3] > have /\ cut[3] <= off
         ELSE cut[1] = "ok"
    /\ \A i \in 1..Len(X.ext) : X.ext[i] = 1

\* P07  decode, then encode: the same body bytes, the same message
P07 ==
  (Complete /\ X.k = "rec" /\ X.r.st = "ok") =>
    /\ X.x.st = "ok"
    /\ res[2].ok /\ res[2].tm
    /\ res[2].off = Len(X.x.out)
    /\ res[2].fix = res[1].fix /\ res[2].le = res[1].le
    /\ \A i \in 1..7 : res[2].hv[i] = res[1].hv[i]
    /\ res[2].hv[8] = IF TokensOf(X.r) = <<>> THEN <<>> ELSE res[1].hv[8]
    /\ (FdsOf(TokensOf(X.r)) = <<>>) =>
         /\ res[2].hv[9] = res[1].hv[9]
         /\ SubSeq(X.x.out, res[2].beg + 1, res[2].off) = SubSeq(X.in, res[1].beg + 1, res[1].off)
    /\ X.x.d.st = "ok" /\ X.x.d.m.b = X.r.m.b
    /\ X.x.d.off = Len(X.x.out)
    /\ X.x.again = X.x.out

\* P08  descriptors
P08 ==
  /\ (Complete /\ X.k = "enc" /\ X.r.st = "ok") =>
       /\ X.r.ofds = FdsOf(X.m.b)
       /\ res[1].ok /\ res[1].tm
       /\ res[1].mfd = Len(X.r.ofds)
       /\ res[1].hv[9] = DerivedUnixFds(X.m)
       /\ (VDepth(X.m.b) <= LibVariantDepth) =>
            X.r.d.st = "ok" /\ X.r.d.ofd = Len(X.r.ofds) /\ X.r.d.m.b = X.m.b
  /\ (Complete /\ X.k = "dec") =>
       IF res[1].ok
       THEN X.r.st = "ok" /\ res[1].tm /\ X.r.ofd = res[1].mfd
       ELSE X.r.st # "ok"

\* P09  header rules
P09 == (Complete /\ X.k = "dec") =>
         IF res[1].ok
         THEN X.r.st = "ok" /\ SameHeader(X.r.m, res[1])
         ELSE X.r.st # "ok"

\* P14  limits: what is encoded, what is accepted, and what is not
P14 == /\ P01 /\ P02 /\ P03 /\ P04
       /\ (Complete /\ X.k = "enc" /\ X.r.st = "ok" /\ VDepth(X.m.b) > LibVariantDepth) => X.r.d.st = "err"

\* P20  the signature and the descriptor count written are those of the body
P20 ==
  (Complete /\ X.k = "enc" /\ X.r.st = "ok") =>
    /\ res[1].hv[8] = IF X.m.b = <<>> THEN <<>> ELSE <<SigOf(X.m.b)>>
    /\ res[1].hv[9] = DerivedUnixFds(X.m)
=============================================================================
