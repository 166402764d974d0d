------------------------------- MODULE MC_Wire ------------------------------
(* Exhaustive: the marshalling and the unmarshalling machine fit.  For every  *)
(* body whose signature has up to N characters over Alpha, with every filling *)
(* the author knows, in both byte orders and with headers of different kinds: *)
(*   - reading what was written gives the message, to the last byte;          *)
(*   - every prefix asks for more, for no more than the rest;                 *)
(*   - bytes that follow do not matter;                                       *)
(*   - the machine that reads several array elements per step reads the same; *)
(*   - a changed body byte is refused or makes another message, whose bytes   *)
(*     are exactly the changed ones: there is one marshalling of a message.   *)
EXTENDS Wire, Marshal
CONSTANTS N, Flips, MaxElems, MaxToks, MaxVariants
Basic(c) ==
  CASE c = 121 -> {<<121, 200>>}
    [] c = 98  -> {<<98, 1>>, <<98, 0>>}
    [] c \in {110, 113} -> {<<c, 1, 2>>}
    [] c \in {105, 117} -> {<<c, 1, 2, 3, 255>>}
    [] c \in {120, 116, 100} -> {<<c, 1, 2, 3, 4, 5, 6, 7, 248>>}
    [] c = 115 -> {<<115>>, <<115, 97, 195, 169>>}
    [] c = 111 -> {<<111, 47>>, <<111, 47, 97>>}
    [] c = 103 -> {<<103>>, <<103, 121>>}
    [] c = 104 -> {<<104, 7, 0, 0, 0>>, <<104, 9, 0, 0, 0>>}
VariantSigs(more) == {s \in {B("y"), B("t"), B("v"), B("as"), B("(yt)"), B("a{yv}")} : more \/ 118 \notin Range(s)}

INSTANCE Author
Alpha == {121, 116, 98, 115, 104, 118, 97, 40, 41, 123, 125}
Slow == INSTANCE Wire WITH Bulk <- 0
VARIABLES sig, a
vars == <<sig, a>>

Hdrs == {[ty |-> 4, fl |-> 1, ver |-> 1, ser |-> <<1, 2, 3, 4>>,
          f |-> [NoFields EXCEPT ![1] = <<B("/")>>, ![2] = <<B("a.b")>>, ![3] = <<B("m")>>]],
         [ty |-> 3, fl |-> 0, ver |-> 1, ser |-> <<0, 0, 0, 128>>,
          f |-> [NoFields EXCEPT ![4] = <<B("a.bcd")>>, ![5] = <<<<9, 0, 0, 255>>>>, ![6] = <<B(":1.2")>>, ![7] = <<B("a.b-c")>>]]}
Up == <<1, 2, 3, 4, 5, 6, 7, 8, 9>>
Down == Reverse(Up)

Words(n) == UNION {[1..i -> Alpha] : i \in 0..n}
Init == /\ sig \in {s \in Words(N) : ValidSig(s)}
        /\ a = Start(sig)
All(s) == s
Next == ~Written(a) /\ a' \in Following(a, All) /\ sig' = sig

Fds(m) == FdsOf(m.b)
Whole(h) ==
  LET b == a.toks IN
  [ty |-> h.ty, fl |-> h.fl, ver |-> h.ver, ser |-> h.ser, b |-> b,
   f |-> [h.f EXCEPT ![8] = IF sig = <<>> THEN <<>> ELSE <<sig>>,
                     ![9] = IF Fds([b |-> b]) = <<>> THEN <<>> ELSE <<LE32(Len(Fds([b |-> b])))>>]]
Env(in, m) == [in |-> in, fds |-> Fds(m), vmax |-> 4]
Reads(r, m, le, n) ==
  /\ r.d.ph = "ok" /\ r.toks = m.b /\ r.d.off = n /\ r.d.le = le
  /\ r.d.hv = m.f /\ r.d.mfd = Len(Fds(m))
  /\ r.d.fix = <<IF le THEN 108 ELSE 66, m.ty, m.fl, m.ver>> \o m.ser

RoundTrip == Written(a) =>
  \A h \in Hdrs, le \in BOOLEAN :
    LET o == IF h.ty = 4 THEN Up ELSE Down
        m == Whole(h)  b == Bytes(m, le, Fds(m), o)  e == Env(b, m) IN
    /\ SigOf(m.b) = sig
    /\ Reads(Decode(e), m, le, Len(b))
    /\ Slow!Decode(e) = Decode(e)
    /\ Decode([e EXCEPT !.in = b \o <<b[1]>>]) = Decode(e)
Prefix == Written(a) =>
  \A le \in BOOLEAN :
    LET m == Whole(CHOOSE h \in Hdrs : h.ty = 4)  b == Bytes(m, le, Fds(m), Up) IN
    \A n \in 0..(Len(b) - 1) :
      LET d == Decode([Env(b, m) EXCEPT !.in = SubSeq(b, 1, n)]).d IN
      /\ d.ph = "err" /\ d.err[1] = "NotEnoughBytes" /\ d.err[2] = n
      /\ n < d.err[3] /\ d.err[3] <= Len(b)
\* what was decoded from b, marshalled once more
Again(r, le, fds) == Marshalled(<<>>, r.toks, le, fds)
OneForm == Written(a) =>
  LET m == Whole(CHOOSE h \in Hdrs : h.ty = 4)  b == Bytes(m, TRUE, Fds(m), Up)
      beg == Len(b) - Len(Marshalled(<<>>, m.b, TRUE, Fds(m))) IN
  \A i \in (beg + 1)..Len(b), x \in Flips :
    LET y == [b EXCEPT ![i] = (b[i] + x) % 256]
        r == Decode(Env(y, m)) IN
    (r.d.ph = "ok") => /\ Again(r, TRUE, Fds(m)) = SubSeq(y, beg + 1, Len(y))
                       /\ r.toks # m.b
=============================================================================
