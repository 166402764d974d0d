------------------------------- MODULE Values -------------------------------
(* Values as token sequences (see Wire.tla):                                  *)
(*   basic      <<code>> \o payload       numbers little-endian               *)
(*   array      <<97>> \o element type    ... <<93>>                          *)
(*   struct     <<40>> ... <<41>>         dict entry  <<123>> key value <<125>> *)
(*   variant    <<118>> \o type  followed by one value                        *)
EXTENDS Signatures

Openers == {97, 40, 123}
Closers == {93, 41, 125}

\* Signature of the values: what is inside an array or a variant is skipped.
\* sk brackets of the skipped part are open; pend: a variant's value comes next.
SigOf(t) ==
  LET Go(st, x) ==
        LET c == x[1] IN
        IF st.sk > 0 THEN
          IF c \in Openers THEN [st EXCEPT !.sk = @ + 1]
          ELSE IF c \in Closers THEN [st EXCEPT !.sk = @ - 1]
          ELSE st
        ELSE IF st.pend THEN
          IF c = 118 THEN st
          ELSE [st EXCEPT !.pend = FALSE, !.sk = IF c \in Openers THEN 1 ELSE 0]
        ELSE IF c = 97 THEN [st EXCEPT !.s = @ \o x, !.sk = 1]
        ELSE [st EXCEPT !.s = Append(@, c), !.pend = (c = 118)]
  IN FoldLeft(Go, [s |-> <<>>, sk |-> 0, pend |-> FALSE], t).s

\* All signatures and types mentioned inside are ones D-Bus can write down.
TypesValid(t) ==
  /\ ValidSig(SigOf(t))
  /\ \A i \in 1..Len(t) :
       /\ t[i][1] = 103 => ValidSig(Tail(t[i]))
       /\ t[i][1] = 118 => ValidType(Tail(t[i]))

\* Structs or dict entries nested too deep outside any array (an array is
\* trusted to have a type).
DeepOutside(s) ==
  LET Go(st, ch) ==
        LET o == ch \in {40, 123}  q == ch \in {41, 125}
            t == st.t + (IF ch = 40 THEN 1 ELSE IF ch = 41 THEN 0 - 1 ELSE 0)
            d == st.d + (IF ch = 123 THEN 1 ELSE IF ch = 125 THEN 0 - 1 ELSE 0) IN
        IF st.skip >= 0
        THEN [st EXCEPT !.t = t, !.d = d,
                        !.skip = IF ~o /\ ch # 97 /\ t + d = st.skip THEN 0 - 1 ELSE st.skip]
        ELSE [t |-> t, d |-> d, skip |-> IF ch = 97 THEN t + d ELSE 0 - 1,
              bad |-> st.bad \/ t > MaxStructDepth \/ d > MaxDictDepth]
  IN FoldLeft(Go, [t |-> 0, d |-> 0, skip |-> 0 - 1, bad |-> FALSE], s).bad

\* How deep variants are nested.  bs: the depth at which the values of each open
\* bracket are; cur: the depth of the next value.
VDepth(t) ==
  LET Go(st, x) ==
        LET c == x[1] IN
        IF c = 118 THEN [st EXCEPT !.cur = @ + 1, !.max = IF st.cur + 1 > @ THEN st.cur + 1 ELSE @]
        ELSE IF c \in Openers THEN [st EXCEPT !.bs = Append(@, st.cur)]
        ELSE IF c \in Closers
             THEN [st EXCEPT !.bs = Front(@), !.cur = Last(Front(st.bs))]
        ELSE [st EXCEPT !.cur = Last(st.bs)]
  IN IF \A i \in 1..Len(t) : t[i][1] # 118 THEN 0
     ELSE FoldLeft(Go, [bs |-> <<0>>, cur |-> 0, max |-> 0], t).max

\* Descriptors of the values, every one once, in order of first appearance.
IsFd(x) == x[1] = 104
FdToks(t) == SelectSeq(t, IsFd)
FdsOf(t) ==
  IF \A i \in 1..Len(t) : t[i][1] # 104 THEN <<>>
  ELSE LET h == FdToks(t)
           new == {i \in 1..Len(h) : \A k \in 1..(i - 1) : h[k] # h[i]}
           First(i) == i \in new
           idx == SelectSeq([i \in 1..Len(h) |-> i], First)
       IN [k \in 1..Len(idx) |-> Tail(h[idx[k]])]
\* The values of a token sequence, one token sequence each.
Items(t) ==
  LET Go(st, x) ==
        LET n == IF x[1] \in Openers THEN st.n + 1 ELSE IF x[1] \in Closers THEN st.n - 1 ELSE st.n
            cur == Append(st.cur, x)
        IN IF n = 0 /\ x[1] # 118 THEN [n |-> 0, cur |-> <<>>, out |-> Append(st.out, cur)]
           ELSE [n |-> n, cur |-> cur, out |-> st.out]
  IN FoldLeft(Go, [n |-> 0, cur |-> <<>>, out |-> <<>>], t).out
=============================================================================
