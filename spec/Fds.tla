--------------------------------- MODULE Fds ---------------------------------
(* The descriptors of a message: the values refer by index to a list that     *)
(* travels beside the bytes.  Every descriptor is in the list once, in the    *)
(* order in which the body first uses it.                                     *)
EXTENDS Naturals, Sequences, SequencesExt

\* The list for descriptors used in the order of s.
ListOf(s) == LET Go(l, f) == IF \E i \in 1..Len(l) : l[i] = f THEN l ELSE Append(l, f)
             IN FoldLeft(Go, <<>>, s)
\* What the bytes say for the i-th descriptor of s (from 1).
IndexIn(s, i) == LET l == ListOf(s) IN (CHOOSE j \in 1..Len(l) : l[j] = s[i]) - 1
\* How many of n listed descriptors a reader of these indexes takes.
Taken(idx) == LET Go(a, i) == IF i + 1 > a THEN i + 1 ELSE a IN FoldLeft(Go, 0, idx)

(* Long sequences by a pattern: the i-th (from 0) of n over d descriptors.     *)
\*   round  0 1 2 .. d-1 0 1 2 ..        back  0 1 .. d-1 d-1 .. 1 0 0 1 ..
\*   once   0 1 2 .. (d = n)             late  0 0 .. 0 1 2 3 ..  (d at the end)
At(pat, n, d, i) ==
  CASE pat = "round" -> i % d
    [] pat = "back"  -> LET r == i % (2 * d) IN IF r < d THEN r ELSE (2 * d) - 1 - r
    [] pat = "late"  -> IF i < n - d THEN 0 ELSE i - (n - d)
\* The first uses come in the order of the numbers, so the list is 0 1 2 ...
Used(pat, n, d) == IF n < d THEN n ELSE d
=============================================================================
