----------------------------- MODULE MC_Suffix -----------------------------
(* Exhaustive: the certificate characterises the suffix array, Kasai's      *)
(* machine computes the permuted LCP array, chains compute PSV.             *)
EXTENDS Suffix, Json

CONSTANTS SIGMA, MAXN, CERTN

VARIABLES text, sa, rk, s, psv, nsv, pc
vars == <<text, sa, rk, s, psv, nsv, pc>>

Init == /\ text \in Texts(1..SIGMA, 1, MAXN)
        /\ sa = <<>> /\ rk = <<>> /\ psv = <<>> /\ nsv = <<>>
        /\ s = [i |-> 1, len |-> 0, out |-> <<>>]
        /\ pc = "sort"
Sort == /\ pc = "sort"
        /\ rk' = Ranks(text)
        /\ sa' = LET r == Ranks(text) IN [x \in 1..Len(text) |-> CHOOSE i \in 1..Len(text) : r[i] = x]
        /\ pc' = "kasai"
        /\ UNCHANGED <<text, s, psv, nsv>>
Kasai == /\ pc = "kasai" /\ s.i <= Len(text)
         /\ s' = PlcpStep(text, sa, rk, s)
         /\ UNCHANGED <<text, sa, rk, psv, nsv, pc>>
ToChains == /\ pc = "kasai" /\ s.i > Len(text)
            /\ pc' = "psv" /\ UNCHANGED <<text, sa, rk, s, psv, nsv>>
(* PSV and NSV of the text itself (repeated values): NSV is PSV mirrored     *)
Chains == /\ pc = "psv" /\ Len(psv) < Len(text)
          /\ psv' = PsvStep(text, psv)
          /\ nsv' = PsvStep(Rev(text), nsv)
          /\ UNCHANGED <<text, sa, rk, s, pc>>
Done == pc = "psv" /\ Len(psv) = Len(text)
Next == Sort \/ Kasai \/ ToChains \/ Chains

n == Len(text)
SaCorrect == pc # "sort" => IsSADef(text, sa) /\ IsSACert(text, sa, rk)
CertExact == pc = "kasai" /\ s.i = 1 /\ n <= CERTN =>
  \A p \in Perms(n) :
    LET inv == [i \in 1..n + 1 |-> IF i > n THEN 0 ELSE CHOOSE r \in 1..n : p[r] = i]
    IN IsSACert(text, p, inv) <=> p = sa
KasaiCorrect == \A i \in 1..Len(s.out) : s.out[i] = PlcpOf(text, sa, rk, i)
                                         /\ \A v \in 0..n : rk[i] # 1 => (IsPlcpAt(text, PredOf(sa, rk, i), i, v) <=> v = s.out[i])
(* the carried length never exceeds the next answer                          *)
KasaiBound == pc = "kasai" /\ s.i <= n => s.len <= PlcpOf(text, sa, rk, s.i)
ChainsCorrect == \A i \in 1..Len(psv) : /\ psv[i] = PsvOf(text, i)
                                        /\ IsPsv(text, i, psv[i])
                                        /\ nsv[i] = (LET q == NsvOf(text, n + 1 - i) IN IF q = 0 THEN 0 ELSE n + 1 - q)
ByMinima == pc = "sort" => LET M == MinLevels(text, 1, n)
                           IN \A i \in 1..n : \A p \in 0..n : /\ IsPsvBy(text, M, i, p) = (p = PsvOf(text, i))
                                                              /\ IsNsvBy(text, M, i, p) = (p = NsvOf(text, i))
Export == Done => PrintT(ToJson([t |-> text, sa |-> sa, rk |-> SubSeq(rk, 1, n), plcp |-> s.out,
                                 psv |-> psv, nsv |-> [i \in 1..n |-> NsvOf(text, i)]]))
=============================================================================
