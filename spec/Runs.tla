-------------------------------- MODULE Runs --------------------------------
(* Counting: maximal runs, distinct bytes; streams that deliver the bytes in *)
(* pieces and with interruptions.                                            *)
EXTENDS Strings

RunStarts(t) == {i \in 1..Len(t) : i = 1 \/ t[i] # t[i-1]}
RunCount(t) == Cardinality(RunStarts(t))
Sigma(t) == Cardinality(Range(t))

(* one-pass counters: s = [i, prev, n] (prev = -1 before the first byte)      *)
RunStep(s, c) == [prev |-> c, n |-> IF s.prev = c THEN s.n ELSE s.n + 1]
SigmaStep(s, c) == [seen |-> s.seen \cup {c}, n |-> IF c \in s.seen THEN s.n ELSE s.n + 1]

(* A reader is a script: bytes >= 0, -1 = interrupted, -2 = hard error,        *)
(* -4 = would block (an error too), -5.. = errors of other kinds.  What a       *)
(* consumer gets to see:                                                       *)
RECURSIVE Delivered(_)
Delivered(sc) == IF sc = <<>> THEN <<>>
                 ELSE IF Head(sc) = -1 THEN Delivered(Tail(sc))
                 ELSE IF Head(sc) < 0 THEN <<-2>>
                 ELSE <<Head(sc)>> \o Delivered(Tail(sc))
(* the same for long scripts                                                   *)
DeliveredLong(sc) ==
  LET p == LeastIn(1, Len(sc), LAMBDA i : sc[i] < -1, 0)
      d == SelectSeq(IF p = 0 THEN sc ELSE SubSeq(sc, 1, p - 1), LAMBDA c : c >= 0)
  IN IF p = 0 THEN d ELSE Append(d, -2)
Broken(sc) == \E i \in 1..Len(sc) : sc[i] < -1
=============================================================================
