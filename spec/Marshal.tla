------------------------------ MODULE Marshal -------------------------------
(* The marshalling machine: the tokens of a message, one at a time, to bytes. *)
(* w.out is what has been written, w.stk the open arrays [at, start]: where   *)
(* the length goes and where the elements begin.                              *)
EXTENDS Values

Pad(o, a) == o \o Zeros(AlignUp(Len(o), a) - Len(o))
Ord(b, le) == IF le THEN b ELSE Reverse(b)
IndexIn(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x

WInit(out, le, fds) == [out |-> out, le |-> le, fds |-> fds, stk |-> <<>>]
Write(w, tok) ==
  LET c == tok[1]  x == Tail(tok)
      P(a) == Pad(w.out, a)
  IN CASE c = 98 -> [w EXCEPT !.out = P(4) \o Ord(x \o <<0, 0, 0>>, w.le)]
       [] c = 104 -> [w EXCEPT !.out = P(4) \o Ord(LE32(IndexIn(w.fds, x) - 1), w.le)]
       [] c \in FixedCodes \ {98, 104} -> [w EXCEPT !.out = P(Alignment(c)) \o Ord(x, w.le)]
       [] c \in {115, 111} -> [w EXCEPT !.out = P(4) \o Ord(LE32(Len(x)), w.le) \o x \o <<0>>]
       [] c \in {103, 118} -> [w EXCEPT !.out = w.out \o <<Len(x)>> \o x \o <<0>>]
       [] c = 97 -> LET l == P(4) \o Zeros(4)  o == Pad(l, Alignment(x[1])) IN
                    [w EXCEPT !.out = o, !.stk = Append(@, [at |-> Len(l) - 4, start |-> Len(o)])]
       [] c = 93 -> LET a == Last(w.stk)
                        n == Ord(LE32(Len(w.out) - a.start), w.le) IN
                    [w EXCEPT !.stk = Front(@),
                              !.out = SubSeq(@, 1, a.at) \o n \o SubSeq(@, a.at + 5, Len(@))]
       [] c \in {40, 123} -> [w EXCEPT !.out = P(8)]
       [] c \in {41, 125} -> w
Marshalled(out, toks, le, fds) == FoldLeft(Write, WInit(out, le, fds), toks).out

\* The types of the header fields.
HeaderType == <<"o", "s", "s", "s", "u", "s", "s", "g", "u">>
FieldToks(i, v) ==
  <<<<40>>, <<121, i>>, <<118>> \o B(HeaderType[i]), B(HeaderType[i]) \o v, <<41>>>>
\* The header fields f in the order given.
HeaderToks(f, order) ==
  <<<<97>> \o B("(yv)")>>
  \o FoldLeft(LAMBDA acc, i : IF f[i] = <<>> THEN acc ELSE acc \o FieldToks(i, f[i][1]), <<>>, order)
  \o <<<<93>>>>

\* A whole message: m as in Session (f complete, body tokens b).
Bytes(m, le, fds, order) ==
  LET body == Marshalled(<<>>, m.b, le, fds)
      fix == <<IF le THEN 108 ELSE 66, m.ty, m.fl, m.ver>>
               \o Ord(LE32(Len(body)), le) \o Ord(m.ser, le)
  IN Pad(Marshalled(fix, HeaderToks(m.f, order), le, <<>>), 8) \o body
=============================================================================
