----------------------------- MODULE MC_Entropy -----------------------------
(* Exhaustive: all short texts with terminator, all orders.  The k-mer       *)
(* counting machine and the suffix-array blocks both give the coefficients   *)
(* of the definition.                                                        *)
EXTENDS Entropy, Json

CONSTANTS SIGMA, MAXN, MAXK

VARIABLES text, k, s
vars == <<text, k, s>>

n == Len(text)
Init == /\ \E w \in Texts(1..SIGMA, 0, MAXN) : text = Append(w, 0)
        /\ k \in 0..MAXK
        /\ k <= Len(text)
        /\ s = [i |-> k + 1, buf |-> SubSeq(text, 1, k), kc |-> [x \in {} |-> 0], kp |-> [x \in {} |-> 0], fin |-> FALSE]
Next == ~s.fin /\ s' = KmerStep(text, k, s) /\ UNCHANGED <<text, k>>

(* a single occurrence contributes nothing (log 1 = 0)                        *)
KmerRight == s.fin /\ k > 0 => \A v \in 2..n : KmerCoef(s, v) = CoefDef(text, k, v)
BlocksRight == s.fin => LET sa == SAOf(text) IN \A v \in 2..n : SaCoef(text, sa, k, v) = CoefDef(text, k, v)
(* the coefficients sum to a non-negative entropy: Jensen, via totals         *)
Balanced == s.fin => LET F[v \in 0..n] == IF v = 0 THEN 0 ELSE F[v-1] + CoefDef(text, k, v) IN F[n] = 0
Export == s.fin => PrintT(ToJson([t |-> text, k |-> k, c |-> [v \in 1..n |-> IF v = 1 THEN 0 ELSE CoefDef(text, k, v)]]))
=============================================================================
