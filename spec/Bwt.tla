-------------------------------- MODULE Bwt --------------------------------
(* Burrows-Wheeler transforms: terminated, of the rotations, bijective.     *)
EXTENDS Suffix

SetToOrder(S, Less(_, _)) ==      \* any sequence of S sorted by Less (ties in any order)
  LET rank(x) == Cardinality({y \in S : Less(y, x) \/ (~Less(x, y) /\ y < x)})
  IN [r \in 1..Cardinality(S) |-> CHOOSE x \in S : rank(x) = r - 1]

(* last column for an order of the positions, pv the cyclic predecessor     *)
Column(t, order, pv(_)) == [r \in 1..Len(t) |-> t[pv(order[r])]]

(* the transform that lists the preceding characters of the sorted suffixes *)
SuffixBwt(t, sa) == Column(t, sa, LAMBDA i : CycPrev(t, i))
(* by definition: last column of the sorted rotations                       *)
RotBwtDef(t) == Column(t, SetToOrder(1..Len(t), LAMBDA i, j : RotLess(t, i, j)), LAMBDA i : CycPrev(t, i))

(* ---- bijective transform ------------------------------------------------ *)
(* ends: the Lyndon factorization                                           *)
FactorOf(ends, i) == CHOOSE k \in 1..Len(ends) : FactorStart(ends, k) <= i /\ i <= ends[k]
NextIn(ends, i) == LET k == FactorOf(ends, i) IN IF i = ends[k] THEN FactorStart(ends, k) ELSE i + 1
PrevIn(ends, i) == LET k == FactorOf(ends, i) IN IF i = FactorStart(ends, k) THEN ends[k] ELSE i - 1
(* infinite repetitions of the rotations starting at positions i and j      *)
OmegaAt(t, ends, i, k) == LET f == FactorOf(ends, i)
                              s == FactorStart(ends, f)
                              m == ends[f] - s + 1
                          IN t[s + ((i - s + k) % m)]
OmegaLess(t, ends, i, j) ==
  LET d == LeastIn(0, 2 * Len(t), LAMBDA k : OmegaAt(t, ends, i, k) # OmegaAt(t, ends, j, k), -1)
  IN d >= 0 /\ OmegaAt(t, ends, i, d) < OmegaAt(t, ends, j, d)
BbwtDef(t, ends) == Column(t, SetToOrder(1..Len(t), LAMBDA i, j : OmegaLess(t, ends, i, j)), LAMBDA i : PrevIn(ends, i))

(* ---- certificates for an order of positions under x -> nx[x] ------------- *)
(* cls numbers the classes of equal infinite words in increasing order      *)
IsOrderCert(t, nx, order, cls) ==
  LET n == Len(t)
      less(a, b) == t[a] < t[b] \/ (t[a] = t[b] /\ cls[nx[a]] < cls[nx[b]])
      same(a, b) == t[a] = t[b] /\ cls[nx[a]] = cls[nx[b]]
  IN /\ Len(order) = n /\ Len(cls) = n
     /\ \A r \in 1..n : order[r] \in 1..n
     /\ Cardinality({order[r] : r \in 1..n}) = n
     /\ (n > 0 => cls[order[1]] = 1)
     /\ \A r \in 2..n :
          \/ less(order[r-1], order[r]) /\ cls[order[r]] = cls[order[r-1]] + 1
          \/ same(order[r-1], order[r]) /\ cls[order[r]] = cls[order[r-1]]

(* ---- inversion ----------------------------------------------------------- *)
(* LF(b, r): the row of the rotation that starts with the character b[r]    *)
LF(b, r) == Cardinality({x \in 1..Len(b) : b[x] < b[r] \/ (b[x] = b[r] /\ x <= r)})
LFs(b) == [r \in 1..Len(b) |-> LF(b, r)]
(* s = [row, out]: reads the text backwards                                  *)
InvStep(b, lf, s) == [row |-> lf[s.row], out |-> <<b[s.row]>> \o s.out]
(* the same in linear time: counting sort, lf as a function                  *)
=============================================================================
