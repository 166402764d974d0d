----------------------------- MODULE SessionOps -----------------------------
(* A small universe of calls, shared by the model (MC_Session) and by the     *)
(* generator of histories (Gen_Session).                                      *)
EXTENDS Session

CONSTANT R              \* number of registers

Regs == 1..R
Dest   == {B(":1.5"), B("a.b")}
Path   == {B("/"), B("/a/b")}
Iface  == {B("c.d")}
Member == {B("M")}
Texts  == {<<>>, B("p"), <<195, 169>>}
Serial == {Zero4, <<1, 0, 0, 0>>, <<4, 3, 2, 255>>}
Fd(n) == <<104, n, 0, 0, 0>>
Vals == {<<<<115, 120>>>>, <<Fd(5)>>, <<<<121, 7>>>>,
         <<<<97, 104>>, Fd(5), Fd(6), <<93>>>>, <<<<118, 104>>, Fd(6)>>,
         <<<<97, 115>>, <<93>>>>}
Bodies == {<<>>} \cup Vals
\* Signatures and counts a header may bring along.
Stale == {<<>>, <<B("s")>>, <<B("ah")>>, <<<<>>>>}
Count == {<<>>, <<LE32(9)>>}

Fields(ty, sig, fds, s7, drop) ==
  [None9 EXCEPT
     ![1] = IF ty \in {CALL, SIGNAL} /\ drop # 1 THEN <<B("/a")>> ELSE <<>>,
     ![2] = IF ty = SIGNAL /\ drop # 2 THEN <<B("c.d")>> ELSE <<>>,
     ![3] = IF ty \in {CALL, SIGNAL} /\ drop # 3 THEN <<B("N")>> ELSE <<>>,
     ![4] = IF ty = ERROR /\ drop # 4 THEN <<B("e.f")>> ELSE <<>>,
     ![5] = IF ty \in {ERROR, RETURN} /\ drop # 5 THEN <<LE32(3)>> ELSE <<>>,
     ![6] = IF s7 = 1 THEN <<B("a.b")>> ELSE <<>>,
     ![7] = IF s7 >= 1 THEN <<B(":1.9")>> ELSE <<>>,
     ![8] = sig, ![9] = fds]

HdrOps ==
  {[o |-> "hdr", a |-> 1, d |-> d, le |-> le, ty |-> ty, fl |-> IF le = 1 THEN 0 ELSE 6, ver |-> 1,
    ser |-> LE32(258), f |-> Fields(ty, sig, fds, s7, 0)] :
     d \in Regs, le \in {0, 1}, ty \in 1..4, sig \in Stale, fds \in Count, s7 \in 0..2}
  \cup
  {[o |-> "hdr", a |-> 1, d |-> d, le |-> 1, ty |-> ty, fl |-> 0, ver |-> 1, ser |-> LE32(1),
    f |-> Fields(ty, <<>>, <<>>, 1, drop)] : d \in Regs, ty \in 1..4, drop \in 1..5}
CallOps ==
  {[o |-> o, a |-> 1, d |-> d, dest |-> x, path |-> p, iface |-> i, member |-> m, text |-> t] :
     o \in {"call", "pget", "pall"}, d \in Regs, x \in Dest, p \in Path, i \in Iface, m \in Member, t \in {B("p")}}
  \cup
  {[o |-> "pset", a |-> 1, d |-> d, dest |-> x, path |-> B("/"), iface |-> B("c.d"), member |-> B("M"),
    text |-> <<>>, v |-> v] : d \in Regs, x \in Dest, v \in Vals}
  \cup
  {[o |-> "signal", a |-> 1, d |-> d, path |-> p, iface |-> B("c.d"), member |-> B("M")] : d \in Regs, p \in Path}
MkOps == {[o |-> "mk", a |-> a, d |-> d, v |-> v] : a \in Regs, d \in Regs, v \in Bodies}
TwoOps == {[o |-> o, a |-> a, d |-> d] : o \in {"clone", "split", "swap", "rt", "ret", "upath", "uif", "umem"},
                                         a \in Regs, d \in Regs}
SerOps == {[o |-> "ser", a |-> a, d |-> a, ser |-> n] : a \in Regs, n \in Serial}
AddOps == {[o |-> "add", a |-> a, d |-> a, v |-> v] : a \in Regs, v \in Vals}
TextOps == {[o |-> o, a |-> a, d |-> d, name |-> B("e.f"), text |-> t] :
              o \in {"err", "inv", "uprop"}, a \in Regs, d \in Regs, t \in Texts}
=============================================================================
