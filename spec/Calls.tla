------------------------------- MODULE Calls -------------------------------
(* A program that uses the library: it holds generators (created, asked for   *)
(* their next element, thrown away and created again, in any interleaving)     *)
(* and calls functions.  Nothing is shared: a generator's answers are the       *)
(* elements of its own sequence, and a function's answer depends on its         *)
(* arguments.  A file is read as it is at that moment.                          *)
(*   d = [g, m, sg, t, lo, hi]:  g = "lwg" (Lyndon words of at most m           *)
(*   characters over 0..sg-1), "bsg" (binary strings of length m), "conj"       *)
(*   (rotations of t), "rsg" (random strings, sg bits per character, between    *)
(*   the numbers with the bits lo and hi)                                       *)
EXTENDS Words

None == <<0, <<>>>>
Some(w) == <<1, w>>
(* the state of a generator: [n: elements given, cur: the last one, end]        *)
New(d) == [n |-> 0, cur |-> IF d.g = "rsg" THEN d.lo ELSE <<>>, end |-> FALSE]
(* the element after s.cur, or None                                             *)
Peek(d, s) ==
  IF s.end THEN None
  ELSE CASE d.g = "lwg" -> LET x == IF s.n = 0 THEN (IF d.m = 0 THEN <<>> ELSE <<0>>) ELSE LyndonSucc(s.cur, d.m, d.sg)
                           IN IF x = <<>> THEN None ELSE Some(x)
         [] d.g = "bsg" -> IF s.n = 0 THEN Some(Const(48, d.m))
                           ELSE LET x == NextString(s.cur, 48, 49) IN IF x = <<>> THEN None ELSE Some(x)
         [] d.g = "conj" -> IF s.n < Len(d.t) THEN Some(Rot(d.t, s.n + 1)) ELSE None
         [] d.g = "rsg" -> IF DigitsLess(AddDigits(s.cur, s.cur, 2, 0), d.hi)
                           THEN Some(RsgText(AddDigits(s.cur, <<1>>, 2, 0), d.sg)) ELSE None
Advanced(d, s, x) == IF x = None THEN [s EXCEPT !.end = TRUE]
                     ELSE [n |-> s.n + 1, end |-> FALSE,
                           cur |-> IF d.g = "rsg" THEN AddDigits(s.cur, <<1>>, 2, 0) ELSE IF d.g = "conj" THEN <<>> ELSE x[2]]

(* ---- the declared sequences, by definition ------------------------------------ *)
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : SeqLeq(x, y) IN <<m>> \o InOrder(S \ {m})
Declared(d) ==
  CASE d.g = "lwg" -> InOrder({w \in Texts(0..d.sg-1, 1, d.m) : IsLyndonWord(w)})
    [] d.g = "bsg" -> InOrder([1..d.m -> {48, 49}])
    [] d.g = "conj" -> [i \in 1..Len(d.t) |-> Rot(d.t, i)]
=============================================================================
