------------------------------- MODULE Parse -------------------------------
(* Greedy parses: Lempel-Ziv 77, lex-parse; minimal unique substrings;       *)
(* string attractors.                                                        *)
EXTENDS Suffix

Same(t, i, j, l) == /\ i + l - 1 <= Len(t) /\ j + l - 1 <= Len(t)
                    /\ \A h \in 0..l-1 : t[i+h] = t[j+h]

(* ---- LZ77 ---------------------------------------------------------------- *)
(* longest prefix of the suffix at i that also starts earlier                *)
LongestEarlier(t, i) == IF i = 1 THEN 0 ELSE MaxOf({LcpAt(t, j, i) : j \in 1..i-1})
Sources(t, i, l) == {j \in 1..i-1 : Same(t, j, i, l)}
(* the set of permitted factors at position i; a factor is <<x, l>>          *)
LzFactors(t, i) == LET l == LongestEarlier(t, i)
                   IN IF l = 0 THEN {<<t[i], 0>>} ELSE {<<i - j, l>> : j \in Sources(t, i, l)}
(* is the factor permitted (without constructing the set)                    *)
IsLzFactor(t, i, f) ==
  /\ f[2] >= 0 /\ i + Max2(f[2], 1) - 1 <= Len(t)
  /\ IF f[2] = 0 THEN f[1] = t[i] ELSE f[1] >= 1 /\ f[1] < i /\ Same(t, i - f[1], i, f[2])
  /\ ~\E j \in 1..i-1 : Same(t, j, i, f[2] + 1)
(* the last conjunct, decided on the interval lo..hi of suffix-array ranks   *)
(* of the suffixes that start with the same f[2] + 1 characters              *)
NoEarlierByRank(t, sa, rk, i, l, lo, hi) ==
  \/ i + l = Len(t) + 1
  \/ /\ lo >= 1 /\ lo <= rk[i] /\ rk[i] <= hi /\ hi <= Len(t)
     /\ Assert((lo = 1 \/ ~Same(t, sa[lo-1], i, l + 1)) /\ (hi = Len(t) \/ ~Same(t, sa[hi+1], i, l + 1)), "bad interval")
     /\ \A r \in lo..hi : sa[r] >= i
Advance(i, f) == i + Max2(f[2], 1)
(* decoder: appends one factor to the text decoded so far                    *)
RECURSIVE CopyFrom(_, _, _)
CopyFrom(out, d, l) == IF l = 0 THEN out ELSE CopyFrom(Append(out, out[Len(out) + 1 - d]), d, l - 1)
LzDecode1(out, f) == IF f[2] = 0 THEN Append(out, f[1]) ELSE CopyFrom(out, f[1], f[2])

(* ---- lex-parse ------------------------------------------------------------ *)
(* the one permitted factor: <<x, l>>, x a character or a 0-based position    *)
LexFactor(t, sa, rk, i) == LET p == PredOf(sa, rk, i)
                               l == IF p = 0 THEN 0 ELSE LcpAt(t, i, p)
                           IN IF l = 0 THEN <<t[i], 0>> ELSE <<p - 1, l>>
(* checking costs the length of the factor only                              *)
IsLexFactor(t, sa, rk, i, f) ==
  LET p == PredOf(sa, rk, i)
  IN /\ f[2] >= 0 /\ i + Max2(f[2], 1) - 1 <= Len(t)
     /\ IF f[2] = 0 THEN f[1] = t[i] /\ (p = 0 \/ t[p] # t[i])
        ELSE p # 0 /\ f[1] = p - 1 /\ IsPlcpAt(t, p, i, f[2])
(* where each position of the text gets its character from: 0 = literal       *)
RECURSIVE LexRefs(_, _)
LexRefs(fs, refs) == IF fs = <<>> THEN refs
                     ELSE LET f == Head(fs)
                          IN LexRefs(Tail(fs), IF f[2] = 0 THEN Append(refs, 0) ELSE refs \o [h \in 1..f[2] |-> f[1] + h])
RECURSIVE LexLits(_, _)
LexLits(fs, lits) == IF fs = <<>> THEN lits
                     ELSE LET f == Head(fs)
                          IN LexLits(Tail(fs), IF f[2] = 0 THEN Append(lits, f[1]) ELSE lits \o [h \in 1..f[2] |-> -1])
(* one round of resolving references; -1 = not yet known                      *)
LexResolve(refs, known) == [i \in 1..Len(known) |-> IF known[i] # -1 \/ refs[i] = 0 THEN known[i] ELSE known[refs[i]]]

(* ---- minimal unique substrings -------------------------------------------- *)
Occurrences(t, i, l) == Cardinality({j \in 1..Len(t) - l + 1 : Same(t, i, j, l)})
IsUnique(t, i, l) == l > 0 /\ Occurrences(t, i, l) = 1
IsMus(t, i, l) == /\ IsUnique(t, i, l)
                  /\ \A a \in 0..l : \A m \in 0..l-a : m < l => ~IsUnique(t, i + a, m)
MusDef(t) == {<<i, l>> \in (1..Len(t)) \X (1..Len(t)) : i + l - 1 <= Len(t) /\ IsMus(t, i, l)}
(* longest prefix of suffix i that occurs elsewhere, from the neighbours      *)
LongestRepeat(t, sa, rk, i) == IF i > Len(t) THEN 0
  ELSE Max2(LET p == PredOf(sa, rk, i) IN IF p = 0 THEN 0 ELSE LcpAt(t, i, p),
            LET q == SuccOf(sa, rk, i) IN IF q = 0 THEN 0 ELSE LcpAt(t, i, q))
(* the minimal unique substrings from the table rep[1..n+1] of these lengths  *)
MusLength(n, rep, i) == IF i + rep[i] <= n /\ rep[i] <= rep[i+1] THEN rep[i] + 1 ELSE 0
IsLongestRepeat(t, sa, rk, i, v) ==
  LET p == PredOf(sa, rk, i)
      q == SuccOf(sa, rk, i)
      a == IF p = 0 THEN 0 ELSE LcpAt(t, i, p)
      b == IF q = 0 THEN 0 ELSE LcpAt(t, i, q)
  IN v = Max2(a, b)

(* ---- string attractors ------------------------------------------------------ *)
(* P is a set of 1-based positions                                             *)
Covers(P, j, l) == \E p \in P : j <= p /\ p <= j + l - 1
SubCovered(t, P, i, l) == \E j \in 1..Len(t) - l + 1 : Same(t, i, j, l) /\ Covers(P, j, l)
IsAttractorDef(t, P) == \A i \in 1..Len(t) : \A l \in 1..Len(t) - i + 1 : SubCovered(t, P, i, l)
(* distance from i to the next attractor position                              *)
DistTo(P, i) == LET S == {p \in P : p >= i} IN IF S = {} THEN 1000000000 ELSE MinOf(S) - i
(* by ranks: all substrings that end on the same edge of the suffix tree have    *)
(* the same occurrences, so the shortest one is the hardest to cover.  An edge   *)
(* leads either to a leaf (one rank) or to an interval of ranks sharing their    *)
(* first lcp[r] characters; lcp is the plain LCP array.                          *)
EdgeCovered(sa, d, lo, hi, short) == \E q \in lo..hi : d[sa[q]] < short
LeafCovered(t, sa, lcp, d, r) ==
  LET above == Max2(lcp[r], IF r = Len(t) THEN 0 ELSE lcp[r+1])
  IN above = Len(t) - sa[r] + 1 \/ d[sa[r]] < above + 1
InnerCovered(t, sa, lcp, d, r) ==
  LET v == lcp[r]
      lo == r - LeastIn(1, r - 1, LAMBDA k : lcp[r-k] < v, 0)
      hi == LeastIn(r + 1, Len(t), LAMBDA k : lcp[k] < v, Len(t) + 1) - 1
  IN EdgeCovered(sa, d, lo, hi, Max2(lcp[lo], IF hi = Len(t) THEN 0 ELSE lcp[hi+1]) + 1)
IsAttractorByRank(t, sa, lcp, d) ==
  \A r \in 1..Len(t) : LeafCovered(t, sa, lcp, d, r) /\ (lcp[r] > 0 => InnerCovered(t, sa, lcp, d, r))
(* The same, one rank at a time, along the path of open intervals: an entry      *)
(* <<v, x>> is an interval that shares its first v characters, x the smallest     *)
(* distance so far.  Closing one whose parent has depth p needs x < p + 1.        *)
RECURSIVE Close(_, _, _)
Close(stk, c, bad) ==           \* all intervals deeper than c
  LET top == stk[Len(stk)]
      below == stk[Len(stk) - 1]
      rest == SubSeq(stk, 1, Len(stk) - 1)
      p == Max2(below[1], c)
      worse == bad \/ ~(top[2] < p + 1)
  IN IF top[1] <= c THEN [stk |-> stk, bad |-> bad]
     ELSE IF below[1] < c THEN [stk |-> Append(rest, <<c, top[2]>>), bad |-> worse]
     ELSE Close([rest EXCEPT ![Len(rest)] = <<below[1], Min2(below[2], top[2])>>], c, worse)
PathInit == [stk |-> <<<<0, 1000000000>>>>, bad |-> FALSE]
(* a suffix of length w at distance x, sharing c characters with its predecessor  *)
PathStep(s, c, w, x) == LET q == Close(s.stk, c, s.bad)
                        IN [stk |-> Append(q.stk, <<w, x>>), bad |-> q.bad]
PathEnd(s) == ~Close(s.stk, 0, s.bad).bad
(* distances as a table, checked from position to position; p lists the 0-based    *)
(* positions, possibly with repetitions                                            *)
IsDist(n, p, d) ==
  /\ Len(d) = n
  /\ \A x \in 1..Len(p) : d[p[x] + 1] = 0
  /\ Cardinality({i \in 1..n : d[i] = 0}) = Cardinality({p[x] : x \in 1..Len(p)})
  /\ \A i \in 1..n : d[i] = 0 \/ d[i] = (IF i = n THEN 1000000000 ELSE IF d[i+1] = 1000000000 THEN d[i+1] ELSE d[i+1] + 1)
=============================================================================
