------------------------------ MODULE MC_Limits -----------------------------
(* Exhaustive: the arithmetic of sizes says what the machines do.  For every  *)
(* body the author writes (signatures of up to N characters), from a small    *)
(* limit for arrays:                                                          *)
(*   - the table gives the length of what the marshalling machine writes,     *)
(*     from every offset modulo 8;                                            *)
(*   - the marks are where lengths are written, and what is written there;    *)
(*   - an array is over the limit exactly when the unmarshalling machine      *)
(*     refuses the message for it;                                            *)
(*   - n equal elements as one run are as long as n runs of one element.      *)
EXTENDS Wire, Marshal
CONSTANTS N, MaxElems, MaxToks, MaxVariants
Basic(c) ==
  CASE c = 121 -> {<<121, 200>>}
    [] c \in {105, 117} -> {<<c, 1, 2, 3, 255>>}
    [] c \in {120, 116, 100} -> {<<c, 1, 2, 3, 4, 5, 6, 7, 248>>}
    [] c = 115 -> {<<115>>, <<115, 97, 195, 169>>}
    [] c = 103 -> {<<103>>, <<103, 121>>}
VariantSigs(more) == {s \in {B("y"), B("t"), B("v"), B("as"), B("(yt)"), B("a{yv}")} : more \/ 118 \notin Range(s)}
INSTANCE Author
L == INSTANCE Limits
Alpha == {121, 116, 115, 103, 118, 97, 40, 41, 123, 125}
VARIABLES sig, a
vars == <<sig, a>>
Words(n) == UNION {[1..i -> Alpha] : i \in 0..n}
Init == /\ sig \in {s \in Words(N) : ValidSig(s)}
        /\ a = Start(sig)
All(s) == s
Next == ~Written(a) /\ a' \in Following(a, All) /\ sig' = sig

\* ---- tokens as values given by their sizes: a stack of [o, kids]
RECURSIVE Put(_, _)
Shaped(f) ==
  CASE f.o[1] = 97 -> [t |-> "arr", e |-> Tail(f.o), r |-> [i \in 1..Len(f.kids) |-> [n |-> 1, v |-> f.kids[i]]]]
    [] f.o[1] = 40 -> [t |-> "grp", d |-> 0, vs |-> f.kids]
    [] f.o[1] = 123 -> [t |-> "grp", d |-> 1, vs |-> f.kids]
    [] f.o[1] = 118 -> [t |-> "var", v |-> f.kids[1]]
Put(st, v) ==
  LET f == [Last(st) EXCEPT !.kids = Append(@, v)] IN
  IF f.o[1] = 118 THEN Put(Front(st), Shaped(f)) ELSE Append(Front(st), f)
Shape(st, x) ==
  LET c == x[1] IN
  CASE c \in Openers \cup {118} -> Append(st, [o |-> x, kids |-> <<>>])
    [] c \in Closers -> Put(Front(st), Shaped(Last(st)))
    [] c \in {115, 103, 111} -> Put(st, [t |-> "str", c |-> c, n |-> Len(x) - 1])
    [] OTHER -> Put(st, [t |-> "fix", c |-> c])
Shapes(toks) == FoldLeft(Shape, <<[o |-> <<0>>, kids |-> <<>>]>>, toks)[1].kids

Runs(toks) == L!Sequence(Shapes(toks))
Sizes == Written(a) =>
  /\ L!BodySig(Shapes(a.toks)) = sig
  /\ LET t == Runs(a.toks) IN
     \A o \in 0..7 : L!Row(t, o).n = Len(Marshalled(Zeros(o), a.toks, TRUE, <<>>)) - o
MarksRight == Written(a) =>
  LET b == Marshalled(<<>>, a.toks, TRUE, <<>>)
      m == L!MarksOf(Shapes(a.toks), 0)
      lens == {i \in 1..Len(a.toks) : a.toks[i][1] \in {97, 115, 111}} IN
  /\ Len(m) = Cardinality(lens)
  /\ \A i \in 1..Len(m) : Slice(b, m[i][1], 4) = LE32(m[i][2])

\* ---- arrays over the limit: the machine over the body alone
Start1(b) == [DInit EXCEPT !.ph = "body", !.stk = <<SeqFrame(sig, 1, Len(sig) + 1, 0, 0)>>, !.bend = Len(b)]
Loose == INSTANCE Wire WITH MaxArrayLen <- 4096
TooLong == (Written(a) /\ sig # <<>>) =>
  LET b == Marshalled(<<>>, a.toks, TRUE, <<>>)
      env == [in |-> b, fds |-> <<>>, vmax |-> 4]
      d == DRun(env, Start1(b), <<>>) IN
  /\ Loose!DRun(env, Start1(b), <<>>).toks = a.toks
  /\ IF L!Body(Shapes(a.toks)).bad THEN d.d.ph = "err" /\ d.d.err[1] = "ArrayTooBig"
     ELSE d.d.ph = "ok" /\ d.toks = a.toks

\* ---- runs
RECURSIVE Merge(_)
Merge(v) ==
  CASE v.t \in {"fix", "str"} -> v
    [] v.t = "var" -> [v EXCEPT !.v = Merge(@)]
    [] v.t = "grp" -> [v EXCEPT !.vs = [i \in 1..Len(@) |-> Merge(@[i])]]
    [] v.t = "arr" ->
         LET Go(st, x) == IF st # <<>> /\ Last(st).v = x.v
                          THEN [st EXCEPT ![Len(st)].n = @ + x.n] ELSE Append(st, x) IN
         [v EXCEPT !.r = FoldLeft(Go, <<>>, [i \in 1..Len(@) |-> [n |-> @[i].n, v |-> Merge(@[i].v)]])]
Merged == Written(a) =>
  LET vs == Shapes(a.toks) IN
  L!Sequence([i \in 1..Len(vs) |-> Merge(vs[i])]) = L!Sequence(vs)
=============================================================================
