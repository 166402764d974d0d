-------------------------------- MODULE Wire --------------------------------
(* The unmarshalling machine.  State d (a record), environment env:           *)
(*   env.in   the buffer            env.fds  the descriptors, 4 bytes LE each *)
(* A message is read by phases                                                *)
(*   "fixed" -> "fields" -> "check" -> "body" -> "ok"    (or "err")           *)
(* and inside "fields" and "body" a stack of frames says what is still to be  *)
(* read:                                                                      *)
(*   "seq"  the types sig[p..e-1] one after the other, then the token cl      *)
(*   "arr"  elements of the type sig[p..e-1] until offset end                 *)
(* Every value read is appended to d.out as a token: <<type code>> \o bytes   *)
(* (numbers little-endian); '[' ... ']' style tokens bracket containers.      *)
EXTENDS Names, Signatures, TLC

CONSTANTS MaxArrayLen,       \* 2^26
          MaxMsgLen,         \* 2^27
          Bulk               \* array elements of one number type read per step

\* Header field codes 1..9: path interface member error_name reply_serial
\* destination sender signature unix_fds, with their D-Bus types.
FieldSig == <<"o", "s", "s", "s", "u", "s", "s", "g", "u">>
FieldKind == <<"path", "interface", "member", "error", "", "bus", "bus", "", "">>
FieldSigCode == [i \in 1..9 |-> B(FieldSig[i])]
FieldsElem == B("(yv)")

NoFields == [i \in 1..9 |-> <<>>]

DInit == [ph |-> "fixed", off |-> 0, stk |-> <<>>, out |-> <<>>, err |-> <<>>,
          le |-> TRUE, fix |-> <<>>, blen |-> 0, bend |-> 0,
          hf |-> <<>>, ht |-> <<>>, hv |-> NoFields, mfd |-> 0, txt |-> <<>>]

Fail(d, w) == [d EXCEPT !.ph = "err", !.err = w, !.out = <<>>, !.hf = <<>>, !.ht = <<>>, !.stk = <<>>]

FailText(d, w, s) == [Fail(d, w) EXCEPT !.txt = s]

\* The buffer the decoder looks at: never more than MaxMsgLen bytes.
BufLen(env) == IF Len(env.in) < MaxMsgLen THEN Len(env.in) ELSE MaxMsgLen

\* ------------------------------------------------------------ primitives
\* Result of reading n bytes at alignment a: [ok, at, off] or [ok, why].
NeedMore(env, need) == [ok |-> FALSE, why |-> <<"NotEnoughBytes", BufLen(env), need>>]

Align(env, off, a) ==
  LET o == AlignUp(off, a) IN
  IF o > BufLen(env) THEN NeedMore(env, o)
  ELSE IF \E i \in (off + 1)..o : env.in[i] # 0
       THEN [ok |-> FALSE,
             why |-> <<"Padding", env.in[CHOOSE i \in (off + 1)..o :
                         env.in[i] # 0 /\ \A j \in (off + 1)..(i - 1) : env.in[j] = 0]>>]
  ELSE [ok |-> TRUE, off |-> o]

Read(env, off, n) ==
  IF off + n > BufLen(env) THEN NeedMore(env, off + n)
  ELSE [ok |-> TRUE, at |-> off, off |-> off + n]

ReadAligned(env, off, a, n) ==
  LET r == Align(env, off, a) IN IF r.ok THEN Read(env, r.off, n) ELSE r

\* A length of w bytes, that many bytes, a NUL.
ReadStr(env, off, w, le) ==
  LET l == ReadAligned(env, off, w, w) IN
  IF ~l.ok THEN l
  ELSE LET n == IF w = 1 THEN env.in[l.at + 1] ELSE U32(Num(env.in, l.at, 4, le))
           r == Read(env, l.off, n) IN
       IF ~r.ok THEN r
       ELSE LET z == Read(env, r.off, 1) IN
            IF ~z.ok THEN z
            ELSE IF env.in[z.at + 1] # 0
                 THEN [ok |-> FALSE, why |-> <<"StringNotNull", env.in[z.at + 1]>>]
                 ELSE [ok |-> TRUE, s |-> Slice(env.in, r.at, n), off |-> z.off]

\* ---------------------------------------------------------------- actions
Top(d) == d.stk[Len(d.stk)]
Below(d) == SubSeq(d.stk, 1, Len(d.stk) - 1)

SeqFrame(sig, p, e, cl, vd) ==
  [t |-> "seq", sig |-> sig, p |-> p, e |-> e, cl |-> cl, end |-> 0, vd |-> vd]
ArrFrame(sig, p, e, end, vd) ==
  [t |-> "arr", sig |-> sig, p |-> p, e |-> e, cl |-> 93, end |-> end, vd |-> vd]

Emit(d, off, stk, toks) == [d EXCEPT !.off = off, !.stk = stk, !.out = toks]

\* Read one value of the type at position p of f.sig; rest is the stack with
\* the frame f already advanced past that type.
ReadFixed(env, d, c, rest) ==
  LET r == ReadAligned(env, d.off, Alignment(c), Width(c)) IN
  IF ~r.ok THEN Fail(d, r.why)
  ELSE LET v == Num(env.in, r.at, Width(c), d.le) IN
       IF c = 98 THEN
         IF v \in {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>}
         THEN Emit(d, r.off, rest, <<<<98, v[1]>>>>)
         ELSE Fail(d, <<"InvalidBoolean">> \o v)
       ELSE IF c = 104 THEN
         LET i == U32(v) IN
         IF i < Len(env.fds)
         THEN [Emit(d, r.off, rest, <<<<104>> \o env.fds[i + 1]>>)
                 EXCEPT !.mfd = IF i + 1 > @ THEN i + 1 ELSE @]
         ELSE Fail(d, <<"NotEnoughFds", Len(env.fds)>> \o v)
       ELSE Emit(d, r.off, rest, <<<<c>> \o v>>)

ReadString(env, d, c, rest) ==
  LET r == ReadStr(env, d.off, IF c = 103 THEN 1 ELSE 4, d.le) IN
  IF ~r.ok THEN Fail(d, r.why)
  ELSE LET why == CASE c = 115 -> IF Utf8(r.s) THEN <<>> ELSE <<"Utf8Error">>
                    [] c = 111 -> LET v == Verdict("path", r.s) IN
                                  IF v = <<>> THEN <<>> ELSE <<"ObjectPathError">> \o v
                    [] c = 103 -> LET v == CheckSig(r.s) IN
                                  IF v.ok THEN <<>> ELSE <<"SignatureError">> \o v.why
       IN IF why = <<>> THEN Emit(d, r.off, rest, <<<<c>> \o r.s>>) ELSE FailText(d, why, r.s)

BeginArray(env, d, f, p, rest) ==
  LET l == ReadAligned(env, d.off, 4, 4) IN
  IF ~l.ok THEN Fail(d, l.why)
  ELSE LET raw == Num(env.in, l.at, 4, d.le)
           n == U32(raw) IN
       IF n > MaxArrayLen THEN Fail(d, <<"ArrayTooBig">> \o raw)
       ELSE LET a == Align(env, l.off, Alignment(f.sig[p + 1])) IN
            IF ~a.ok THEN Fail(d, a.why)
            ELSE LET e == TypeEnd(f.sig, p + 1) IN
                 Emit(d, a.off, Append(rest, ArrFrame(f.sig, p + 1, e, a.off + n, f.vd)),
                      <<<<97>> \o SubSeq(f.sig, p + 1, e - 1)>>)

BeginGroup(env, d, f, p, rest) ==      \* struct or dict entry
  LET a == Align(env, d.off, 8) IN
  IF ~a.ok THEN Fail(d, a.why)
  ELSE LET e == TypeEnd(f.sig, p) IN
       Emit(d, a.off,
            Append(rest, SeqFrame(f.sig, p + 1, e - 1, IF f.sig[p] = 40 THEN 41 ELSE 125, f.vd)),
            <<<<f.sig[p]>>>>)

BeginVariant(env, d, f, rest) ==
  IF f.vd + 1 > env.vmax THEN Fail(d, <<"VariantDepth", f.vd + 1>>)
  ELSE LET r == ReadStr(env, d.off, 1, d.le) IN
       IF ~r.ok THEN Fail(d, r.why)
       ELSE LET v == CheckType(r.s) IN
            IF ~v.ok THEN FailText(d, <<"SignatureError">> \o v.why, r.s)
            ELSE Emit(d, r.off, Append(rest, SeqFrame(r.s, 1, Len(r.s) + 1, 0, f.vd + 1)),
                      <<<<118>> \o r.s>>)

ReadValue(env, d, f, p, rest) ==
  LET c == f.sig[p] IN
  IF c \in FixedCodes THEN ReadFixed(env, d, c, rest)
  ELSE IF c \in {115, 111, 103} THEN ReadString(env, d, c, rest)
  ELSE IF c = 97 THEN BeginArray(env, d, f, p, rest)
  ELSE IF c = 118 THEN BeginVariant(env, d, f, rest)
  ELSE BeginGroup(env, d, f, p, rest)

\* Elements without further rules (any bytes are a value), several at once.
Plain == {121, 110, 113, 105, 117, 120, 116, 100}
BulkCount(env, d, f) ==
  LET m == (f.end - d.off) \div Width(f.sig[f.p])
      b == IF m < Bulk THEN m ELSE Bulk
  IN IF b > 1 /\ d.off + b * Width(f.sig[f.p]) <= BufLen(env) THEN b ELSE 0
BulkRead(env, d, f, m) ==
  LET c == f.sig[f.p]  w == Width(c) IN
  Emit(d, d.off + m * w, d.stk,
       [i \in 1..m |-> <<c>> \o Num(env.in, d.off + (i - 1) * w, w, d.le)])

\* One step of the value machine (the stack is not empty).
StepValue(env, d) ==
  LET f == Top(d) IN
  IF f.t = "seq" THEN
    IF f.p = f.e THEN Emit(d, d.off, Below(d), IF f.cl = 0 THEN <<>> ELSE <<<<f.cl>>>>)
    ELSE ReadValue(env, d, f, f.p, Append(Below(d), [f EXCEPT !.p = TypeEnd(f.sig, f.p)]))
  ELSE
    IF d.off < f.end THEN
      LET m == IF f.sig[f.p] \in Plain THEN BulkCount(env, d, f) ELSE 0 IN
      IF m > 0 THEN BulkRead(env, d, f, m) ELSE ReadValue(env, d, f, f.p, d.stk)
    ELSE IF d.off = f.end THEN Emit(d, d.off, Below(d), <<<<93>>>>)
    ELSE Fail(d, <<"ArrayInvalidLength", d.off, f.end>>)

\* ------------------------------------------------------------ the message
\* Fixed part: byte order, type, flags, version, body length, serial.
StepFixed(env, d) ==
  LET n == BufLen(env)
      need(k) == Fail(d, <<"NotEnoughBytes", n, k>>) IN
  IF n < 1 THEN need(1)
  ELSE IF env.in[1] \notin {108, 66} THEN Fail(d, <<"Endianness", env.in[1]>>)
  ELSE IF n < 2 THEN need(2)
  ELSE IF env.in[2] \notin 1..4 THEN Fail(d, <<"MessageType", env.in[2]>>)
  ELSE IF n < 3 THEN need(3)
  ELSE IF env.in[3] \notin 0..7 THEN Fail(d, <<"MessageFlags", env.in[3]>>)
  ELSE IF n < 4 THEN need(4)
  ELSE IF n < 8 THEN need(8)
  ELSE IF n < 12 THEN need(12)
  ELSE LET le == env.in[1] = 108
           body == Num(env.in, 4, 4, le)
           d1 == [d EXCEPT !.le = le, !.off = 12,
                           !.fix = <<env.in[1], env.in[2], env.in[3], env.in[4]>>
                                     \o Num(env.in, 8, 4, le),
                           !.blen = U32(body), !.bend = body]
           h == BeginArray(env, d1, SeqFrame(<<97>> \o FieldsElem, 1, 6, 0, 0), 1, <<>>)
       IN IF h.ph = "err" THEN h ELSE [h EXCEPT !.ph = "fields", !.out = <<>>]

\* While the fields array is read its tokens are kept in hf; ht remembers, for
\* every field, its code, the signature of its variant and where its value is.
StepFields(env, d) ==
  LET top == Len(d.stk) = 2 /\ Top(d).t = "seq" /\ Top(d).p = 4
      r == StepValue(env, d) IN
  IF r.ph = "err" THEN r
  ELSE LET hf == d.hf \o r.out
           ht == IF top THEN Append(d.ht, [c |-> d.hf[Len(d.hf)][2],
                                           s |-> Tail(r.out[1]),
                                           k |-> Len(hf) + 1])
                 ELSE d.ht
       IN [r EXCEPT !.hf = hf, !.ht = ht, !.out = <<>>,
                    !.ph = IF r.stk = <<>> THEN "check" ELSE "fields"]

FieldName == <<"Path", "Interface", "Member", "ErrorName", "ReplySerial",
               "Destination", "Sender", "Signature", "UnixFDs">>
FieldErrName == <<"", "InterfaceError", "MemberError", "ErrorError", "",
                  "BusError", "BusError", "", "">>

\* Why field x cannot be added to the fields hv collected so far.
FieldWhy(hf, hv, x) ==
  IF x.c \notin 1..9 THEN <<"InvalidNumber", x.c>>
  ELSE IF hv[x.c] # <<>> THEN <<"Multiple" \o FieldName[x.c]>>
  ELSE IF x.s # FieldSigCode[x.c] THEN <<FieldName[x.c]>>
  ELSE IF x.c \in {2, 3, 4, 6, 7} /\ ~Accepts(FieldKind[x.c], Tail(hf[x.k]))
       THEN <<FieldErrName[x.c]>> \o Verdict(FieldKind[x.c], Tail(hf[x.k]))
  ELSE <<>>

\* Collected fields, as <<value>> per present field.
RECURSIVE Collect(_, _, _, _)
Collect(hf, ht, i, hv) ==
  IF i > Len(ht) THEN [hv |-> hv, why |-> <<>>]
  ELSE LET w == FieldWhy(hf, hv, ht[i]) IN
       IF w # <<>> THEN [hv |-> hv, why |-> w]
       ELSE Collect(hf, ht, i + 1, [hv EXCEPT ![ht[i].c] = <<Tail(hf[ht[i].k])>>])

\* Fields every message of the given type has to have.
Required(mtype) ==
  CASE mtype = 1 -> <<1, 3>> [] mtype = 4 -> <<1, 2, 3>>
    [] mtype = 3 -> <<4, 5>> [] mtype = 2 -> <<5>>

Missing(mtype, hv) ==
  LET r == Required(mtype)
      ms == {i \in 1..Len(r) : hv[r[i]] = <<>>}
  IN IF ms = {} THEN <<>>
     ELSE <<"Missing" \o FieldName[r[CHOOSE i \in ms : \A j \in ms : i <= j]]>>

StepCheck(env, d) ==
  LET c == Collect(d.hf, d.ht, 1, NoFields)
      hv == c.hv
      miss == Missing(d.fix[2], hv)
      sig == IF hv[8] = <<>> THEN <<>> ELSE hv[8][1]
      empty == d.bend = <<0, 0, 0, 0>>
  IN IF c.why # <<>> THEN Fail(d, c.why)
     ELSE IF miss # <<>> THEN Fail(d, miss)
     ELSE IF empty /\ sig # <<>> THEN Fail(d, <<"BodyLengthZero">>)
     ELSE IF ~empty /\ hv[8] = <<>> THEN Fail(d, <<"BodySignatureMissing">>)
     ELSE LET a == Align(env, d.off, 8) IN
          IF ~a.ok THEN Fail(d, a.why)
          ELSE [d EXCEPT !.off = a.off, !.hv = hv, !.out = <<>>, !.hf = <<>>, !.ht = <<>>,
                         !.ph = IF empty THEN "ok" ELSE "body",
                         !.bend = a.off + d.blen,
                         !.stk = <<SeqFrame(sig, 1, Len(sig) + 1, 0, 0)>>]

StepBody(env, d) ==
  LET r == StepValue(env, d) IN
  IF r.ph = "err" \/ r.stk # <<>> THEN r
  ELSE IF r.off = d.bend THEN [r EXCEPT !.ph = "ok"]
  ELSE Fail(r, <<"BodyLength", d.bend, r.off>>)

Done(d) == d.ph \in {"ok", "err"}

DStep(env, d) ==
  CASE d.ph = "fixed"  -> StepFixed(env, d)
    [] d.ph = "fields" -> StepFields(env, d)
    [] d.ph = "check"  -> StepCheck(env, d)
    [] d.ph = "body"   -> StepBody(env, d)

\* The whole run at once.
RECURSIVE DRun(_, _, _)
DRun(env, d, toks) ==
  IF Done(d) THEN [d |-> d, toks |-> toks]
  ELSE LET n == DStep(env, d) IN DRun(env, n, toks \o n.out)
Decode(env) == DRun(env, DInit, <<>>)
=============================================================================
