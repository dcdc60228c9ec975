----------------------------- MODULE MC_Lyndon -----------------------------
(* Exhaustive check over all short texts: Duval's machine and the machine   *)
(* on the inverse suffix array both end in the Lyndon factorization, which  *)
(* is unique.  Terminal states are exported as test vectors.                *)
EXTENDS Suffix, Json

CONSTANTS SIGMA, MAXN, MINN, UNIQN

VARIABLES text, d, rk, q
vars == <<text, d, rk, q>>

Init == /\ text \in Texts(1..SIGMA, MINN, MAXN)
        /\ d = DuvalInit
        /\ rk = <<>>
        /\ q = [k |-> 0, cur |-> 0, out |-> <<>>]

Duval == /\ d.pc # "done"
         /\ d' = DuvalStep(text, d)
         /\ UNCHANGED <<text, rk, q>>
StartIsa == /\ d.pc = "done" /\ rk = <<>>
            /\ rk' = Ranks(text)
            /\ q' = [k |-> 2, cur |-> Ranks(text)[1], out |-> <<>>]
            /\ UNCHANGED <<text, d>>
Isa == /\ rk # <<>> /\ q.k <= Len(text)
       /\ q' = IsaStep(rk, Len(text), q)
       /\ UNCHANGED <<text, d, rk>>
Next == Duval \/ StartIsa \/ Isa

Finished == rk # <<>> /\ q.k > Len(text)
IsaResult == Append(q.out, Len(text))

(* loop invariants of Duval's algorithm: what has been emitted is final     *)
Progress == /\ d.k <= Len(text)
            /\ (d.pc = "scan" => d.k <= d.i /\ d.i < d.j /\ d.j <= Len(text))
            /\ \A x \in 1..Len(d.out) : IsLyndonWord(FactorAt(text, d.out, x))
Correct == d.pc = "done" => IsLyndonFactorization(text, d.out)
Agree == Finished => IsaResult = d.out
ByRank == Finished => \A x \in 1..Len(d.out) :
            /\ EndByRank(rk, Len(text), FactorStart(d.out, x)) = d.out[x]
            /\ \A e \in 1..Len(text) : IsEndByRank(rk, Len(text), FactorStart(d.out, x), e) <=> e = d.out[x]
Unique == Finished /\ Len(text) <= UNIQN =>
            \A c \in Cuts(Len(text)) : IsLyndonFactorization(text, c) => c = d.out
Export == Finished => PrintT(ToJson([t |-> text, f |-> d.out]))
=============================================================================
