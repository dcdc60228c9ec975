------------------------------ MODULE Strings ------------------------------
(* Base vocabulary: finite sequences of integers (characters), 1-based.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* Least element of S satisfying P, or d.                                   *)
LeastOr(S, P(_), d) == IF \E k \in S : P(k)
                       THEN CHOOSE k \in S : P(k) /\ \A h \in S : h < k => ~P(h)
                       ELSE d
(* The same over an interval; the search stops at the answer.              *)
LeastIn(lo, hi, P(_), d) == IF \E k \in lo..hi : P(k)
                            THEN CHOOSE k \in lo..hi : P(k) /\ \A h \in lo..k-1 : ~P(h)
                            ELSE d
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

Texts(A, lo, hi) == UNION {[1..n -> A] : n \in lo..hi}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Range(s) == {s[i] : i \in 1..Len(s)}
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
IsPermutationOf(a, b) == /\ Len(a) = Len(b)
                         /\ \A c \in Range(a) \cup Range(b) : Count(a, c) = Count(b, c)

(* Lexicographic order of two sequences.                                    *)
FirstDiff(a, b) == LeastIn(1, Min2(Len(a), Len(b)), LAMBDA k : a[k] # b[k], 0)
SeqLess(a, b) == LET d == FirstDiff(a, b)
                 IN IF d = 0 THEN Len(a) < Len(b) ELSE a[d] < b[d]
SeqLeq(a, b) == a = b \/ SeqLess(a, b)

(* Longest common prefix of the suffixes of t starting at i and j.          *)
LcpAt(t, i, j) ==
  LET m == Min2(Len(t) - i, Len(t) - j) + 1
  IN IF m <= 0 THEN 0
     ELSE IF \E k \in 0..m-1 : t[i+k] # t[j+k]
          THEN CHOOSE k \in 0..m-1 : t[i+k] # t[j+k] /\ \A h \in 0..k-1 : t[i+h] = t[j+h]
          ELSE m
SufLess(t, i, j) ==
  LET k == LcpAt(t, i, j)
  IN IF i + k > Len(t) THEN j + k <= Len(t)
     ELSE IF j + k > Len(t) THEN FALSE ELSE t[i+k] < t[j+k]

(* Cyclic rotations.                                                        *)
Rot(t, i) == [k \in 1..Len(t) |-> t[((i + k - 2) % Len(t)) + 1]]
CycNext(t, i) == IF i = Len(t) THEN 1 ELSE i + 1
CycPrev(t, i) == IF i = 1 THEN Len(t) ELSE i - 1

(* Does the sequence p occur in t at position i ?                           *)
OccursAt(t, p, i) == /\ i + Len(p) - 1 <= Len(t)
                     /\ \A k \in 1..Len(p) : t[i + k - 1] = p[k]
Occ(t, i, len) == {j \in 1..Len(t) - len + 1 : \A k \in 0..len-1 : t[j+k] = t[i+k]}

(* Decimal representation of a natural number as bytes.                     *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

(* Result of one step of a deterministic observer.                          *)
Ok(s) == [ok |-> TRUE, s |-> s]
Bad == [ok |-> FALSE, s |-> 0]
=============================================================================
