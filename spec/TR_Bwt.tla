------------------------------- MODULE TR_Bwt -------------------------------
(* Recorded transforms b of texts t.                                         *)
(* k = "suf": by suffix sorting (certificate sa, rk); refused = TRUE if the  *)
(*            tool gave no output; term = TRUE if t ends with the terminator *)
(*            that the tool appended.                                        *)
(* k = "rot": of the rotations (certificate ord, cls).                       *)
(* k = "bij": bijective (certificates sa, rk for the factors; nx, ord, cls). *)
EXTENDS Bwt, TraceBase

ZeroInside(t) == \E i \in 1..Len(t) - 1 : t[i] = 0
BwSInit(r) ==
  LET n == Len(r.t) IN
  CASE r.k = "suf" -> IF Assert(IsSACert(r.t, r.sa, r.rk), <<"bad certificate", r.id>>) THEN Ok(0) ELSE Bad
    [] r.k = "rot" -> IF Assert(IsOrderCert(r.t, [i \in 1..n |-> CycNext(r.t, i)], r.ord, r.cls), <<"bad certificate", r.id>>)
                      THEN Ok(0) ELSE Bad
    [] r.k = "bij" ->
         \* nx must be the successor map of the Lyndon factors
         IF Assert(/\ IsSACert(r.t, r.sa, r.rk)
                   /\ \A x \in 1..Len(r.ends) : IsEndByRank(r.rk, n, FactorStart(r.ends, x), r.ends[x])
                   /\ r.ends[Len(r.ends)] = n
                   /\ \A x \in 1..Len(r.ends) : \A i \in FactorStart(r.ends, x)..r.ends[x] :
                        r.nx[i] = IF i = r.ends[x] THEN FactorStart(r.ends, x) ELSE i + 1
                   /\ IsOrderCert(r.t, r.nx, r.ord, r.cls), <<"bad certificate", r.id>>)
         THEN Ok(0) ELSE Bad
BwSStep(r, s, e) == Bad
Prevs(r) == [i \in 1..Len(r.t) |-> 0]
BwSFinal(r, s) ==
  LET n == Len(r.t) IN
  IF "refused" \in DOMAIN r /\ r.refused THEN r.k = "suf" /\ ZeroInside(r.t) /\ r.b = <<>>
  ELSE /\ Len(r.b) = n
       /\ CASE r.k = "suf" -> ~ZeroInside(r.t) /\ \A x \in 1..n : r.b[x] = r.t[CycPrev(r.t, r.sa[x])]
            [] r.k = "rot" -> \A x \in 1..n : r.b[x] = r.t[CycPrev(r.t, r.ord[x])]
            [] r.k = "bij" -> \A i \in 1..n : \* i precedes nx[i]: the rank of nx[i] holds t[i]; ties are equal characters
                                 LET q == r.nx[i] IN r.b[r.pos[q]] = r.t[i] /\ r.ord[r.pos[q]] = q
=============================================================================
