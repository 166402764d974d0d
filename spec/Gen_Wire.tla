------------------------------ MODULE Gen_Wire ------------------------------
(* Messages for the real code, made up by the author and marshalled by the    *)
(* marshalling machine.  Run in simulation mode; every message is written to  *)
(* the file OUT with its bytes and descriptors.                               *)
EXTENDS Marshal, Names, TLC, Json, IOUtils
CONSTANTS MaxElems, MaxToks, MaxVariants, MaxTypes

Alpha == {121, 113, 117, 116, 98, 115, 111, 103, 104, 118, 97, 40, 41, 123, 125}
Words(n) == UNION {[1..i -> Alpha] : i \in 1..n}
ShortSet == {s \in Words(4) : ValidType(s)}
\* kept in registers: they are looked into again and again
Short(i) == TLCGet(i)
Pick(q) == q[RandomElement(1..Len(q))]
Wraps == <<<<B("a"), <<>>>>, <<B("("), B("v)")>>, <<B("a(y"), B(")")>>, <<B("a{s"), B("}")>>, <<B("a{o"), B("}")>>>>
Wrapped(n) == LET w == Pick(Wraps) IN w[1] \o Pick(Short(1)) \o w[2]
VariantSigs(more) == IF more THEN {Pick(Short(1))} ELSE {Pick(Short(2))}

R(S) == RandomElement(S)
Rb(n) == [i \in 1..n |-> R(0..255)]
Sigs(i) == <<<<>>, B("yyt"), B("a{sv}as"), B("g"), B("(((y)))")>> \o SubSeq(Short(1), 1, 40)
Texts == {<<>>, B("a"), B("two words"), <<195, 169>>, <<226, 130, 172, 65>>, <<240, 159, 152, 128>>, <<0>>, <<65, 0, 66>>,
          [i \in 1..300 |-> 120], B("'\\,="), B("1234567"), B("12345678")}
Paths == {B("/"), B("/a"), B("/a/b_1"), B("/org/freedesktop/DBus"), B("/0")}
Basic(c) ==
  CASE c \in {121, 113, 117, 116} -> {<<c>> \o Rb(Width(c))}
    [] c = 98  -> {<<98, 1>>, <<98, 0>>}
    [] c = 115 -> {<<115>> \o R(Texts)}
    [] c = 111 -> {<<111>> \o R(Paths)}
    [] c = 103 -> {<<103>> \o Pick(Sigs(c))}
    [] c = 104 -> {<<104>> \o <<R(0..5), 0, 0, 0>>}
INSTANCE Author

Names1 == {B("a.b"), B("org.freedesktop.DBus"), B("_.A1"), B("a.b.c.d.e.f")}
Members == {B("m"), B("Member_1"), B("GetAll"), B("abcdefg"), B("abcdefgh")}
Buses == {B("a.b"), B(":1.42"), B("org.x-y.z"), B(":a.1-")}
Maybe(S) == IF R(1..2) = 1 THEN <<>> ELSE <<R(S)>>
Orders == {<<1, 2, 3, 4, 5, 6, 7, 8, 9>>, <<9, 8, 7, 6, 5, 4, 3, 2, 1>>, <<8, 1, 9, 2, 3, 7, 5, 6, 4>>, <<3, 2, 1, 5, 4, 9, 6, 8, 7>>}
Fields(ty) ==
  <<IF ty \in {1, 4} THEN <<R(Paths)>> ELSE Maybe(Paths),
    IF ty = 4 THEN <<R(Names1)>> ELSE Maybe(Names1),
    IF ty \in {1, 4} THEN <<R(Members)>> ELSE Maybe(Members),
    IF ty = 3 THEN <<R(Names1)>> ELSE Maybe(Names1),
    IF ty \in {2, 3} THEN <<Rb(4)>> ELSE IF R(1..3) = 1 THEN <<Rb(4)>> ELSE <<>>,
    Maybe(Buses), Maybe(Buses), <<>>, <<>>>>

VARIABLES a, le, done
vars == <<a, le, done>>
NoSig == <<>>
Init == /\ LET w == SetToSeq(ShortSet)  NoV(x) == 118 \notin Range(x) IN
           TLCSet(1, w) /\ TLCSet(2, SelectSeq(w, NoV))
        /\ a = Start(NoSig) /\ le = TRUE /\ done = 0
OneType(n) == IF R(1..3) = 1 THEN Pick(Short(1)) ELSE Wrapped(n)
\* done: 0 nothing yet, 1 a message is being written, 2 it is written
Begin == /\ done = 0 /\ done' = 1
         /\ \E n \in {R(0..MaxTypes)} :
              a' = Start(FoldLeft(LAMBDA acc, i : IF Len(acc) > 200 THEN acc ELSE acc \o OneType(i), <<>>, [i \in 1..n |-> i]))
         /\ le' = R(BOOLEAN)
One(S) == {RandomElement(S)}
Go == /\ done = 1 /\ ~Written(a)
      /\ a' \in One(Following(a, One)) /\ UNCHANGED <<le, done>>
End == done = 1 /\ Written(a) /\ done' = 2 /\ UNCHANGED <<a, le>>
Next == Begin \/ Go \/ End

Out ==
  LET b == a.toks
      fds == FdsOf(b)
      ty == R(1..4)
      f == [Fields(ty) EXCEPT ![8] = IF b = <<>> THEN <<>> ELSE <<SigOf(b)>>,
                              ![9] = IF fds = <<>> THEN Maybe({<<1, 0, 0, 0>>}) ELSE <<LE32(Len(fds))>>]
      m == [le |-> IF le THEN 1 ELSE 0, ty |-> ty, fl |-> R(0..7), ver |-> 1, ser |-> Rb(4), f |-> f, b |-> b]
      o == R(Orders)
  IN [m |-> m, fds |-> fds, in |-> Bytes(m, le, fds, o), turned |-> Bytes(m, ~le, fds, o)]
Sent ==
  done = 2 =>
    Serialize(ToJson(Out) \o "\n", IOEnv.OUT,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
