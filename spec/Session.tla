------------------------------ MODULE Session ------------------------------
(* Messages and headers over a history of API calls.  A register holds        *)
(* nothing ([k |-> "none"]), a message or a header:                           *)
(*   [k |-> "m" | "h", le, ty, fl, ver, ser, f, b]                            *)
(* f: the nine header fields, each <<>> or <<value>>; f[8] is the signature   *)
(* the header itself carries, which need not be that of the body b.           *)
EXTENDS Names, Values

None9 == [i \in 1..9 |-> <<>>]
Zero4 == <<0, 0, 0, 0>>
CALL == 1  RETURN == 2  ERROR == 3  SIGNAL == 4
NoReply == 1

\* Fields every message of the type has to have.
Needs(ty) == CASE ty = CALL -> {1, 3} [] ty = SIGNAL -> {1, 2, 3}
               [] ty = ERROR -> {4, 5} [] ty = RETURN -> {5}
FieldsOk(ty, f) == \A i \in Needs(ty) : f[i] # <<>>

Kinds9 == <<"path", "interface", "member", "error", "", "bus", "bus", "", "">>
NamesOk(f) ==
  \A i \in 1..9 :
    /\ (Kinds9[i] # "" /\ f[i] # <<>>) => Accepts(Kinds9[i], f[i][1])
    /\ (i = 8 /\ f[i] # <<>>) => ValidSig(f[i][1])

Msg(le, ty, fl, ser, f, b) ==
  [k |-> "m", le |-> le, ty |-> ty, fl |-> fl, ver |-> 1, ser |-> ser, f |-> f, b |-> b]
Header(m) == [m EXCEPT !.k = "h", !.b = <<>>]

Str(s) == <<115>> \o s

\* ---------------------------------------------------------- constructors
Call(dest, path, iface, member, b) ==
  Msg(1, CALL, 0, Zero4, [None9 EXCEPT ![1] = <<path>>, ![2] = <<iface>>, ![3] = <<member>>, ![6] = <<dest>>], b)
Signal(path, iface, member) ==
  Msg(1, SIGNAL, NoReply, Zero4, [None9 EXCEPT ![1] = <<path>>, ![2] = <<iface>>, ![3] = <<member>>], <<>>)
PropsIface == B("org.freedesktop.DBus.Properties")

\* --------------------------------------------------------------- replies
\* The common part: back to the sender, about this call, in its byte order.
ReplyFields(m) == [None9 EXCEPT ![5] = <<m.ser>>, ![6] = m.f[7], ![7] = m.f[6]]
Return(m) == Msg(m.le, RETURN, NoReply, Zero4, ReplyFields(m), <<>>)
Error(m, name, text) ==
  Msg(m.le, ERROR, NoReply, Zero4, [ReplyFields(m) EXCEPT ![4] = <<name>>], <<Str(text)>>)
StdError(s) == B("org.freedesktop.DBus.Error." \o s)
Naming(m, i, name, text) ==
  IF m.f[i] = <<>> THEN [st |-> "none", v |-> <<>>]
  ELSE [st |-> "ok", v |-> <<Error(m, StdError(name), B(text) \o m.f[i][1])>>]

Reply(m, op) ==
  CASE op.o = "ret"   -> IF m.ty = CALL THEN [st |-> "ok", v |-> <<Return(m)>>]
                         ELSE [st |-> "refused",
                               v |-> <<Error(m, StdError("MessageType"), B("Message is not a method call"))>>]
    [] op.o = "err"   -> [st |-> "ok", v |-> <<Error(m, op.name, op.text)>>]
    [] op.o = "inv"   -> [st |-> "ok", v |-> <<Error(m, StdError("InvalidArgs"), op.text)>>]
    [] op.o = "uprop" -> [st |-> "ok",
                          v |-> <<Error(m, StdError("UnknownProperty"), B("does not have a property ") \o op.text)>>]
    [] op.o = "upath" -> Naming(m, 1, "UnknownPath", "does not have a path ")
    [] op.o = "uif"   -> Naming(m, 2, "UnknownInterface", "does not have an interface ")
    [] op.o = "umem"  -> Naming(m, 3, "UnknownMember", "does not have a member ")
ReplyOps == {"ret", "err", "inv", "uprop", "upath", "uif", "umem"}

\* ---------------------------------------------------------------- encoding
\* Signature and descriptor count that are written for message m.
WireSig(m) == IF m.b = <<>> THEN <<>> ELSE <<SigOf(m.b)>>
WireFds(m) == IF FdsOf(m.b) = <<>> THEN m.f[9] ELSE <<LE32(Len(FdsOf(m.b)))>>
\* What comes back when m is encoded and decoded again.
RoundTrip(m) == [m EXCEPT !.f[8] = <<>>, !.f[9] = WireFds(m)]
CanEncode(m) == TypesValid(m.b)
\* Variants are nested at most 4 deep in what the library decodes.
CanDecode(m) == CanEncode(m) /\ VDepth(m.b) <= 4

\* ---------------------------------------------------------------- steps
Nothing == [k |-> "none"]
\* The types of the body can be told (an array is trusted to have a type).
Typed(m) == ~DeepOutside(SigOf(m.b))
Is(r, k) == r.k = k
Res(st, regs) == [st |-> st, regs |-> regs]
Put2(regs, d, v) == Res("ok", [regs EXCEPT ![d] = v])

Do(regs, op) ==
  LET a == op.a  d == op.d  r == regs[a]
      three == [None9 EXCEPT ![1] = <<op.path>>, ![2] = <<op.iface>>, ![3] = <<op.member>>]
      parts == [three EXCEPT ![6] = <<op.dest>>]
  IN
  CASE op.o = "call" ->
         IF NamesOk(parts) THEN Put2(regs, d, Call(op.dest, op.path, op.iface, op.member, <<>>))
         ELSE Res("bad", regs)
    [] op.o = "signal" ->
         IF NamesOk(three) THEN Put2(regs, d, Signal(op.path, op.iface, op.member))
         ELSE Res("bad", regs)
    [] op.o \in {"pget", "pall", "pset"} ->
         IF NamesOk([None9 EXCEPT ![1] = <<op.path>>, ![2] = <<op.iface>>, ![6] = <<op.dest>>]) THEN
           Put2(regs, d, Call(op.dest, op.path, PropsIface,
                  CASE op.o = "pget" -> B("Get") [] op.o = "pall" -> B("GetAll") [] OTHER -> B("Set"),
                  CASE op.o = "pget" -> <<Str(op.iface), Str(op.text)>>
                    [] op.o = "pall" -> <<Str(op.iface)>>
                    [] OTHER -> <<Str(op.iface), Str(op.text), <<118>> \o SigOf(op.v)>> \o op.v))
         ELSE Res("bad", regs)
    [] op.o = "hdr" ->
         IF ~NamesOk(op.f) THEN Res("bad", regs)
         ELSE IF ~FieldsOk(op.ty, op.f) THEN Res("err", regs)
         ELSE Put2(regs, d, [k |-> "h", le |-> op.le, ty |-> op.ty, fl |-> op.fl, ver |-> op.ver,
                             ser |-> op.ser, f |-> op.f, b |-> <<>>])
    [] op.o = "mk" ->
         IF Is(r, "h") THEN Put2(regs, d, [r EXCEPT !.k = "m", !.b = op.v]) ELSE Res("skip", regs)
    [] op.o = "clone" -> IF r.k # "none" THEN Put2(regs, d, r) ELSE Res("skip", regs)
    [] op.o = "ser" -> IF Is(r, "m") THEN Put2(regs, a, [r EXCEPT !.ser = op.ser]) ELSE Res("skip", regs)
    [] op.o = "add" -> IF Is(r, "m") THEN Put2(regs, a, [r EXCEPT !.b = @ \o op.v]) ELSE Res("skip", regs)
    [] op.o = "split" ->
         IF ~Is(r, "m") THEN Res("skip", regs)
         ELSE IF ~Typed(r) THEN Res("err", regs)
         ELSE Put2(regs, d, [Header(r) EXCEPT !.f[8] = WireSig(r)])
    \* the parts of one message, the body of another
    [] op.o = "swap" ->
         IF Is(r, "m") /\ Is(regs[d], "m")
         THEN IF ~Typed(r) \/ ~Typed(regs[d]) THEN Res("err", regs)
              ELSE Put2(regs, d, [r EXCEPT !.f[8] = WireSig(r), !.b = regs[d].b])
         ELSE Res("skip", regs)
    [] op.o = "rt" ->
         IF ~Is(r, "m") THEN Res("skip", regs)
         ELSE IF CanDecode(r) THEN Put2(regs, d, RoundTrip(r)) ELSE Res("err", regs)
    [] op.o \in ReplyOps ->
         IF r.k = "none" THEN Res("skip", regs)
         ELSE IF op.o = "err" /\ ~Accepts("error", op.name) THEN Res("bad", regs)
         ELSE LET x == Reply(r, op) IN
              IF x.v = <<>> THEN Res(x.st, regs) ELSE Res(x.st, [regs EXCEPT ![d] = x.v[1]])

\* ------------------------------------------------------------ observation
\* What the accessors show of a register.
Shows(r) ==
  IF r.k = "none" THEN r
  ELSE [k |-> r.k, le |-> r.le, ty |-> r.ty, fl |-> r.fl, ver |-> r.ver, ser |-> r.ser,
        f |-> IF r.k = "m" THEN [r.f EXCEPT ![8] = <<>>] ELSE r.f,
        b |-> r.b,
        hs |-> IF r.f[8] = <<>> THEN 0 ELSE 1]
=============================================================================
