------------------------------ MODULE Entropy ------------------------------
(* Empirical entropy of order k, exactly: n * H_k is an integer combination  *)
(* of logarithms, n * H_k = SUM over v of Coef(v) * log2(v).                 *)
EXTENDS Suffix

(* number of characters that follow the length-k context at position i       *)
Following(t, k, i) == Cardinality({j \in 1..Len(t) - k : \A h \in 0..k-1 : t[j+h] = t[i+h]})
(* ... and how many of these are the same character as the one after i       *)
FollowingSame(t, k, i) == Cardinality({j \in 1..Len(t) - k : \A h \in 0..k : t[j+h] = t[i+h]})
(* by definition: each position i that has a full context and a follower      *)
(* contributes log2(Following / FollowingSame)                                *)
CoefDef(t, k, v) == Cardinality({i \in 1..Len(t) - k : Following(t, k, i) = v})
                    - Cardinality({i \in 1..Len(t) - k : FollowingSame(t, k, i) = v})

(* ---- by k-mer counting: s = [i, buf, kc, kp] ------------------------------ *)
Bump(f, x) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE [y \in DOMAIN f \cup {x} |-> IF y = x THEN 1 ELSE f[y]]
KmerStep(t, k, s) ==
  IF s.i <= Len(t)
  THEN LET b == Append(s.buf, t[s.i])
       IN [i |-> s.i + 1, buf |-> Tail(b), kc |-> Bump(s.kc, s.buf), kp |-> Bump(s.kp, b), fin |-> FALSE]
  ELSE [s EXCEPT !.kc = Bump(s.kc, s.buf), !.fin = TRUE]
KmerCoef(s, v) == v * Cardinality({w \in DOMAIN s.kc : s.kc[w] = v}) - v * Cardinality({w \in DOMAIN s.kp : s.kp[w] = v})

(* ---- by suffix sorting: blocks of ranks with lcp >= k, and within these     *)
(* blocks with lcp > k                                                        *)
SameK(t, i, j, k) == /\ i + k - 1 <= Len(t) /\ j + k - 1 <= Len(t)
                     /\ \A h \in 0..k-1 : t[i+h] = t[j+h]
BlockStart(t, sa, k, r) == r = 1 \/ ~SameK(t, sa[r-1], sa[r], k)
BlockLen(t, sa, k, r) == LeastIn(r + 1, Len(t), LAMBDA x : BlockStart(t, sa, k, x), Len(t) + 1) - r
SaCoef(t, sa, k, v) == v * Cardinality({r \in 1..Len(t) : BlockStart(t, sa, k, r) /\ BlockLen(t, sa, k, r) = v})
                       - v * Cardinality({r \in 1..Len(t) : BlockStart(t, sa, k+1, r) /\ BlockLen(t, sa, k+1, r) = v})

(* ---- fixed-point arithmetic: x0 + x1/2^10 + x2/2^20 + x3/2^30               *)
AddScaled(s, m, x) == [q \in 1..4 |-> s[q] + m * x[q]]
Zero4 == <<0, 0, 0, 0>>
Normal(d) == LET c3 == d[4] \div 1024
                 c2 == (d[3] + c3) \div 1024
                 c1 == (d[2] + c2) \div 1024
             IN <<d[1] + c1, (d[2] + c2) % 1024, (d[3] + c3) % 1024, d[4] % 1024>>
(* |d| <= tol / 2^30                                                           *)
Small(d, tol) == LET x == Normal(d)
                     low == x[2] * 1048576 + x[3] * 1024 + x[4]
                 IN (x[1] = 0 /\ low <= tol) \/ (x[1] = -1 /\ 1073741824 - low <= tol)
(* a table of logarithms is right up to rounding                               *)
LogTableOk(L) ==
  LET n == Len(L)
      diff(a, b) == [q \in 1..4 |-> a[q] - b[q]]
  IN /\ L[1] = Zero4 /\ (n >= 2 => L[2] = <<1, 0, 0, 0>>)
     /\ \A v \in 2..n : LET x == Normal(diff(L[v], L[v-1])) IN x[1] \in {0, 1}      \* non-decreasing
     /\ \A v \in 2..n \div 2 : Small(diff(L[2*v], [q \in 1..4 |-> L[v][q] + (IF q = 1 THEN 1 ELSE 0)]), 1)
     /\ \A a \in 3..Min2(n, 130) : \A b \in a..Min2(n \div a, 130) :
          Small(diff(L[a*b], [q \in 1..4 |-> L[a][q] + L[b][q]]), 2)
=============================================================================
