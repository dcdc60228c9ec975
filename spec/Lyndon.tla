------------------------------ MODULE Lyndon ------------------------------
(* Lyndon words and the Lyndon factorization.                              *)
EXTENDS Strings

(* A word is Lyndon if it is smaller than all its proper suffixes.         *)
IsLyndonWord(w) == Len(w) > 0 /\ \A i \in 2..Len(w) : SeqLess(w, SubSeq(w, i, Len(w)))

(* ends is the sequence of 1-based ending positions of the factors.        *)
FactorStart(ends, k) == IF k = 1 THEN 1 ELSE ends[k-1] + 1
FactorAt(t, ends, k) == SubSeq(t, FactorStart(ends, k), ends[k])
IsLyndonFactorization(t, ends) ==
  /\ Len(ends) > 0
  /\ ends[Len(ends)] = Len(t)
  /\ \A k \in 1..Len(ends) : FactorStart(ends, k) <= ends[k]
  /\ \A k \in 1..Len(ends) : IsLyndonWord(FactorAt(t, ends, k))
  /\ \A k \in 2..Len(ends) : SeqLeq(FactorAt(t, ends, k), FactorAt(t, ends, k-1))

(* All ways to cut 1..n into non-empty pieces, as sequences of end points. *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o Sorted(S \ {m})
Cuts(n) == {Sorted(S \cup {n}) : S \in SUBSET (1..n-1)}

(* ---- the same factorization, read off the suffix ranks ---------------- *)
(* rk[i] is the rank of suffix i, rk[Len+1] = 0 (the empty suffix).        *)
Ranks(t) == [i \in 1..Len(t) + 1 |->
               IF i > Len(t) THEN 0 ELSE Cardinality({j \in 1..Len(t) : SufLess(t, j, i)}) + 1]
(* The factor starting at p ends before the next smaller suffix.           *)
EndByRank(rk, n, p) == LeastIn(p+1, n, LAMBDA j : rk[j] < rk[p], n + 1) - 1
(* Checking one given end point is cheaper than finding it.                *)
IsEndByRank(rk, n, p, e) == /\ e >= p /\ e <= n
                            /\ \A j \in p+1..e : rk[j] > rk[p]
                            /\ (e < n => rk[e+1] < rk[p])

(* ---- Duval's algorithm, one action per loop iteration ----------------- *)
(* st = [k, i, j, pc, out]; positions are 0-based as in the code.          *)
DuvalInit == [k |-> 0, i |-> 0, j |-> 0, pc |-> "outer", out |-> <<>>]
DuvalStep(t, s) ==
  LET n == Len(t)
      c(x) == t[x + 1]
  IN CASE s.pc = "outer" /\ s.k < n  -> [s EXCEPT !.i = s.k, !.j = s.k + 1, !.pc = "scan"]
       [] s.pc = "outer" /\ s.k >= n -> [s EXCEPT !.pc = "done"]
       [] s.pc = "scan" /\ s.j # n /\ c(s.i) < c(s.j) -> [s EXCEPT !.i = s.k, !.j = s.j + 1]
       [] s.pc = "scan" /\ s.j # n /\ c(s.i) = c(s.j) -> [s EXCEPT !.i = s.i + 1, !.j = s.j + 1]
       [] s.pc = "scan" /\ (s.j = n \/ c(s.i) > c(s.j)) -> [s EXCEPT !.pc = "emit"]
       [] s.pc = "emit" ->
            LET k2 == s.k + (s.j - s.i)
            IN [s EXCEPT !.k = k2, !.out = Append(s.out, k2),
                         !.pc = IF k2 >= s.i THEN "outer" ELSE "emit"]

(* ---- prefix minima of the inverse suffix array ------------------------ *)
IsaStep(rk, n, s) ==     \* s = [k, cur, out]; k is 1-based
  IF s.k > n THEN s
  ELSE IF rk[s.k] < s.cur THEN [k |-> s.k + 1, cur |-> rk[s.k], out |-> Append(s.out, s.k - 1)]
  ELSE [s EXCEPT !.k = s.k + 1]

(* ---- Lyndon words in lexicographic order: Duval's successor ----------- *)
(* w over the alphabet 0..sigma-1, at most maxlen characters; <<>> = none. *)
Extend(w, m) == [i \in 1..m |-> w[((i - 1) % Len(w)) + 1]]
LyndonSucc(w, maxlen, sigma) ==
  LET x == Extend(w, maxlen)
      keep == {i \in 1..maxlen : x[i] # sigma - 1}
  IN IF keep = {} THEN <<>>
     ELSE LET e == MaxOf(keep) IN [SubSeq(x, 1, e) EXCEPT ![e] = @ + 1]

(* ---- necklaces --------------------------------------------------------- *)
IsNecklace(w) == \A i \in 2..Len(w) : ~SeqLess(Rot(w, i), w)
(* prefix of a necklace over the alphabet A, by definition (bounded search) *)
IsPrenecklaceDef(w, A, extra) == \E x \in Texts(A, 0, extra) : IsNecklace(w \o x)
(* and by comparing each suffix with the prefix of the same length          *)
IsPrenecklace(w) == \A i \in 2..Len(w) : ~SeqLess(SubSeq(w, i, Len(w)), SubSeq(w, 1, Len(w) - i + 1))

(* ---- smallest rotation ------------------------------------------------- *)
RotLess(t, i, j) ==
  LET n == Len(t)
      at(p, k) == t[((p + k - 1) % n) + 1]
  IN IF \E k \in 0..n-1 : at(i, k) # at(j, k)
     THEN LET d == CHOOSE k \in 0..n-1 : at(i, k) # at(j, k) /\ \A h \in 0..k-1 : at(i, h) = at(j, h)
          IN at(i, d) < at(j, d)
     ELSE FALSE
IsSmallestRotation(t, i) == i \in 1..Len(t) /\ \A j \in 1..Len(t) : ~RotLess(t, j, i)
=============================================================================
