---------------------------- MODULE MC_Attractor ----------------------------
(* All short texts with all sets of positions, processed as the tool does:   *)
(* check the positions, then examine the groups of substrings one by one.    *)
EXTENDS Parse, Json

CONSTANTS SIGMA, MAXN

(* is the substring of length l at rank r, or one of the following ranks that   *)
(* share it, covered                                                            *)
RECURSIVE GroupCovered(_, _, _, _, _, _)
GroupCovered(t, sa, lcp, d, x, l) ==
  \/ d[sa[x]] < l
  \/ x < Len(t) /\ lcp[x+1] >= l /\ GroupCovered(t, sa, lcp, d, x + 1, l)

VARIABLES text, P, r, bad
vars == <<text, P, r, bad>>

n == Len(text)
Init == /\ text \in Texts(1..SIGMA, 1, MAXN)
        /\ P \in SUBSET (1..Len(text))
        /\ r = 1 /\ bad = {}
(* one step per rank: all substrings whose first occurrence in suffix-array order has rank r *)
Next == /\ r <= n
        /\ r' = r + 1
        /\ LET sa == SAOf(text)
               lcp == [x \in 1..n |-> IF x = 1 THEN 0 ELSE LcpAt(text, sa[x-1], sa[x])]
               d == [x \in 1..n |-> DistTo(P, x)]
           IN bad' = bad \cup {<<sa[r], l>> : l \in {m \in lcp[r]+1..n - sa[r] + 1 : ~GroupCovered(text, sa, lcp, d, r, m)}}
        /\ UNCHANGED <<text, P>>
Sound == \A x \in bad : ~SubCovered(text, P, x[1], x[2])
Decides == r > n => ((bad = {}) = IsAttractorDef(text, P))
ByRank == r = 1 => LET sa == SAOf(text)
                       lcp == [x \in 1..n |-> IF x = 1 THEN 0 ELSE LcpAt(text, sa[x-1], sa[x])]
                       d == [x \in 1..n |-> DistTo(P, x)]
                   IN IsAttractorByRank(text, sa, lcp, d) = IsAttractorDef(text, P)
RECURSIVE AlongPath(_, _, _, _, _)
AlongPath(sa, lcp, d, x, s) == IF x > n THEN PathEnd(s)
                               ELSE AlongPath(sa, lcp, d, x + 1, PathStep(s, lcp[x], n - sa[x] + 1, d[sa[x]]))
ByPath == r = 1 => LET sa == SAOf(text)
                       lcp == [x \in 1..n |-> IF x = 1 THEN 0 ELSE LcpAt(text, sa[x-1], sa[x])]
                       d == [x \in 1..n |-> DistTo(P, x)]
                   IN /\ IsDist(n, [x \in 1..Cardinality(P) |-> (CHOOSE y \in P : Cardinality({z \in P : z < y}) = x - 1) - 1], d)
                      /\ AlongPath(sa, lcp, d, 1, PathInit) = IsAttractorDef(text, P)
Monotone == r > n /\ bad = {} => \A Q \in SUBSET (1..n) : (P \subseteq Q) => IsAttractorDef(text, Q)
Export == r > n => PrintT(ToJson([t |-> text, p |-> [x \in 1..n |-> IF x \in P THEN 1 ELSE 0], valid |-> bad = {}]))
=============================================================================
