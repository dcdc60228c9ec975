------------------------------ MODULE Suffix ------------------------------
(* Suffix arrays and their companion tables.                               *)
EXTENDS Lyndon

Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
(* the suffix array, by definition (1-based positions)                     *)
IsSADef(t, sa) == /\ Len(sa) = Len(t)
                  /\ Range(sa) = 1..Len(t)
                  /\ \A r \in 2..Len(sa) : SufLess(t, sa[r-1], sa[r])
SAOf(t) == LET rk == Ranks(t) IN [r \in 1..Len(t) |-> CHOOSE i \in 1..Len(t) : rk[i] = r]

(* A linear-time certificate: rk is the inverse of sa, extended by 0 for   *)
(* the empty suffix, and neighbours are ordered by (character, rank of the *)
(* next suffix).  MC_Suffix checks that this is equivalent to IsSADef.     *)
IsSACert(t, sa, rk) ==
  LET n == Len(t)
  IN /\ Len(sa) = n /\ Len(rk) = n + 1 /\ rk[n+1] = 0
     /\ \A r \in 1..n : sa[r] \in 1..n
     /\ \A r \in 1..n : rk[sa[r]] = r
     /\ \A r \in 2..n : \/ t[sa[r-1]] < t[sa[r]]
                        \/ t[sa[r-1]] = t[sa[r]] /\ rk[sa[r-1] + 1] < rk[sa[r] + 1]
(* lexicographic predecessor position, 0 if none                           *)
PredOf(sa, rk, i) == IF rk[i] = 1 THEN 0 ELSE sa[rk[i] - 1]
SuccOf(sa, rk, i) == IF rk[i] = Len(sa) THEN 0 ELSE sa[rk[i] + 1]

(* plcp / lcp, zero at the smallest suffix                                 *)
PlcpOf(t, sa, rk, i) == IF rk[i] = 1 THEN 0 ELSE LcpAt(t, i, sa[rk[i] - 1])
IsPlcpAt(t, j, i, v) ==      \* v = Lcp of suffixes i and j
  /\ v >= 0 /\ i + v - 1 <= Len(t) /\ j + v - 1 <= Len(t)
  /\ (i + v <= Len(t) /\ j + v <= Len(t) => t[i+v] # t[j+v])
  /\ \A k \in 0..v-1 : t[i+k] = t[j+k]

(* ---- the code's PLCP computation (Kasai et al. along Phi), per position  *)
(* s = [i, len, out]; 1-based i                                            *)
PlcpStep(t, sa, rk, s) ==
  LET n == Len(t)
      p == PredOf(sa, rk, s.i)
      q == IF p = 0 THEN 0
           ELSE LET m == Min2(n - s.i, n - p) + 1
                IN LeastIn(s.len, m-1, LAMBDA k : t[p+k] # t[s.i+k], m)
  IN [i |-> s.i + 1, len |-> Max2(q - 1, 0), out |-> Append(s.out, q)]

(* ---- previous / next smaller entry, by definition (0 = none) ----------- *)
PsvOf(a, i) == LET S == {j \in 1..i-1 : a[j] < a[i]} IN IF S = {} THEN 0 ELSE MaxOf(S)
NsvOf(a, i) == LET S == {j \in i+1..Len(a) : a[j] < a[i]} IN IF S = {} THEN 0 ELSE MinOf(S)
IsPsv(a, i, p) == IF p = 0 THEN \A j \in 1..i-1 : a[j] >= a[i]
                  ELSE p < i /\ p >= 1 /\ a[p] < a[i] /\ \A j \in p+1..i-1 : a[j] >= a[i]
IsNsv(a, i, p) == IF p = 0 THEN \A j \in i+1..Len(a) : a[j] >= a[i]
                  ELSE p > i /\ p <= Len(a) /\ a[p] < a[i] /\ \A j \in i+1..p-1 : a[j] >= a[i]
(* range minima: level k holds the minima of the intervals of length 2^(k-1)  *)
RECURSIVE MinLevels(_, _, _)
MinLevels(L, w, n) == IF 2 * w > n THEN <<L>>
                      ELSE <<L>> \o MinLevels(TLCEval([i \in 1..n + 1 - 2 * w |-> Min2(L[i], L[i + w])]), 2 * w, n)
RECURSIVE Level(_, _, _)
Level(len, k, w) == IF 2 * w > len THEN <<k, w>> ELSE Level(len, k + 1, 2 * w)
MinIn(M, i, j) == LET q == Level(j - i + 1, 1, 1) IN Min2(M[q[1]][i], M[q[1]][j + 1 - q[2]])
(* all entries smaller than v are outside i..j                               *)
NoneBelow(M, i, j, v) == i > j \/ MinIn(M, i, j) >= v
IsPsvBy(a, M, i, p) == IF p = 0 THEN NoneBelow(M, 1, i - 1, a[i])
                       ELSE p \in 1..i-1 /\ a[p] < a[i] /\ NoneBelow(M, p + 1, i - 1, a[i])
IsNsvBy(a, M, i, p) == IF p = 0 THEN NoneBelow(M, i + 1, Len(a), a[i])
                       ELSE p \in i+1..Len(a) /\ a[p] < a[i] /\ NoneBelow(M, i + 1, p - 1, a[i])
(* following the chain of already known answers, as the code does          *)
RECURSIVE ChainP(_, _, _, _)
ChainP(a, psv, p, v) == IF p = 0 THEN 0 ELSE IF a[p] < v THEN p ELSE ChainP(a, psv, psv[p], v)
PsvStep(a, psv) == LET i == Len(psv) + 1 IN Append(psv, ChainP(a, psv, i - 1, a[i]))
=============================================================================
