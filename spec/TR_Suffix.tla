----------------------------- MODULE TR_Suffix -----------------------------
(* Recorded tables.  k = "sa":  t, sa, rk, reported inv, phi, lcp (0-based  *)
(* values; optional) and ev = the reported PLCP values in text order.       *)
(* k = "sv": a, reported psv and nsv (0-based, -1 = none).                  *)
EXTENDS Suffix, TraceBase

Has(r, f) == f \in DOMAIN r
Cyc(sa, rk, i) == IF rk[i] = 1 THEN sa[Len(sa)] ELSE sa[rk[i] - 1]

SuSInit(r) ==
  CASE r.k = "sa" -> IF Assert(IsSACert(r.t, r.sa, r.rk), <<"bad certificate", r.id>>)
                     THEN Ok([i |-> 1, len |-> 0, last |-> 0]) ELSE Bad
    [] r.k = "sv" -> Ok(0)
(* one PLCP entry: directly for short texts, along Phi for long ones         *)
SuSStep(r, s, v) ==
  IF s.i > Len(r.t) THEN Bad
  ELSE LET p == PredOf(r.sa, r.rk, s.i)
           okay == IF p = 0 THEN v = 0
                   ELSE IF Len(r.t) <= 130 THEN IsPlcpAt(r.t, p, s.i, v)
                   ELSE PlcpStep(r.t, r.sa, r.rk, [i |-> s.i, len |-> s.len, out |-> <<>>]).out = <<v>>
       IN IF okay THEN Ok([i |-> s.i + 1, len |-> Max2(v - 1, 0), last |-> v]) ELSE Bad
SuSFinal(r, s) ==
  CASE r.k = "sa" ->
         LET m == Len(r.t) IN
         /\ s.i = m + 1
         /\ Has(r, "inv") => /\ Len(r.inv) = m
                             /\ \A i \in 1..m : r.inv[i] = r.rk[i] - 1
         /\ Has(r, "phi") => /\ Len(r.phi) = m
                             /\ \A i \in 1..m : r.phi[i] = Cyc(r.sa, r.rk, i) - 1
         /\ Has(r, "lcp") => /\ Len(r.lcp) = m
                             /\ \A x \in 1..m : r.lcp[x] = r.ev[r.sa[x]]
         /\ Has(r, "sax") => /\ Len(r.sax) = m
                             /\ \A x \in 1..m : r.sax[x] = r.sa[x] - 1
    [] r.k = "sv" ->
         LET m == Len(r.a) IN
         /\ Len(r.psv) = m /\ Len(r.nsv) = m
         /\ \A i \in 1..m : r.psv[i] + 1 < i /\ r.psv[i] >= -1
         /\ \A i \in 1..m : r.nsv[i] = -1 \/ (r.nsv[i] + 1 > i /\ r.nsv[i] < m)
         /\ m <= 300 => \A i \in 1..m : IsPsv(r.a, i, r.psv[i] + 1) /\ IsNsv(r.a, i, r.nsv[i] + 1)
         /\ LET M == MinLevels(r.a, 1, m)
            IN \A i \in 1..m : IsPsvBy(r.a, M, i, r.psv[i] + 1) /\ IsNsvBy(r.a, M, i, r.nsv[i] + 1)
=============================================================================
