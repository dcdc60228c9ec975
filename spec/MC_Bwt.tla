------------------------------- MODULE MC_Bwt -------------------------------
(* Exhaustive over short zero-free texts: the three transforms, the code's  *)
(* way to compute each of them, inversion of the terminated and of the      *)
(* bijective transform.                                                     *)
EXTENDS Bwt, Json

CONSTANTS SIGMA, MAXN

VARIABLES text, pc, ends, sa, tb, rb, bb, inv, cyc
vars == <<text, pc, ends, sa, tb, rb, bb, inv, cyc>>

n == Len(text)
T0 == Append(text, 0)

Init == /\ text \in Texts(1..SIGMA, 1, MAXN)
        /\ pc = "factor"
        /\ ends = <<>> /\ sa = <<>> /\ tb = <<>> /\ rb = <<>> /\ bb = <<>>
        /\ inv = [row |-> 1, out |-> <<>>]
        /\ cyc = [todo |-> {}, cur |-> 0, out |-> <<>>]

RECURSIVE Facs(_, _, _)
Facs(t, rk, p) == IF p > Len(t) THEN <<>>
                  ELSE LET e == EndByRank(rk, Len(t), p) IN <<e>> \o Facs(t, rk, e + 1)
Factor == /\ pc = "factor"
          /\ ends' = Facs(text, Ranks(text), 1)
          /\ pc' = "transform"
          /\ UNCHANGED <<text, sa, tb, rb, bb, inv, cyc>>
Transform == /\ pc = "transform"
             /\ sa' = SAOf(T0)
             /\ tb' = SuffixBwt(T0, SAOf(T0))
             /\ rb' = RotBwtDef(text)
             /\ bb' = BbwtDef(text, ends)
             /\ pc' = "invert"
             /\ UNCHANGED <<text, ends, inv, cyc>>
(* LF walk of the terminated transform, starting in the row of the terminator *)
Invert == /\ pc = "invert" /\ Len(inv.out) < n
          /\ inv' = InvStep(tb, LFs(tb), inv)
          /\ UNCHANGED <<text, pc, ends, sa, tb, rb, bb, cyc>>
ToCycles == /\ pc = "invert" /\ Len(inv.out) = n
            /\ pc' = "cycles"
            /\ cyc' = [todo |-> 1..n, cur |-> 0, out |-> <<>>]
            /\ UNCHANGED <<text, ends, sa, tb, rb, bb, inv>>
(* the cycles of LF, smallest rows first, spell the Lyndon factors from the   *)
(* last one to the first one                                                  *)
Cycles == /\ pc = "cycles" /\ cyc.todo # {}
          /\ cyc' = LET r == IF cyc.cur \in cyc.todo THEN cyc.cur ELSE MinOf(cyc.todo)
                    IN [todo |-> cyc.todo \ {r}, cur |-> LF(bb, r), out |-> <<bb[r]>> \o cyc.out]
          /\ UNCHANGED <<text, pc, ends, sa, tb, rb, bb, inv>>
Finished == pc = "cycles" /\ cyc.todo = {}
Next == Factor \/ Transform \/ Invert \/ ToCycles \/ Cycles

After(p) == IF p = "invert" THEN pc \in {"invert", "cycles"} ELSE pc = p
FactorsRight == pc = "transform" => IsLyndonFactorization(text, ends)
Once == pc = "invert" /\ inv.out = <<>>
TerminatedRight == Once => /\ tb = RotBwtDef(T0)
                           /\ IsPermutationOf(tb, T0)
RotationRight == Once =>
   /\ IsPermutationOf(rb, text)
   /\ \A i \in 1..n : RotBwtDef(Rot(text, i)) = rb
   \* the fast way: sort the suffixes of a smallest rotation
   /\ \A i \in 1..n : IsSmallestRotation(text, i) => SuffixBwt(Rot(text, i), SAOf(Rot(text, i))) = rb
BijectiveRight == Once => IsPermutationOf(bb, text)
InverseRight == pc = "invert" => \A k \in 1..Len(inv.out) : inv.out[k] = text[n - Len(inv.out) + k]
UnBijectiveRight == Finished => cyc.out = text
(* the certificate accepts a correct order and determines the column         *)
nx == [i \in 1..n |-> CycNext(text, i)]
CertRight == Once /\ n <= 5 =>
   LET ord == SetToOrder(1..n, LAMBDA i, j : RotLess(text, i, j))
       cl == [i \in 1..n |-> 1 + Cardinality({[k \in 1..n |-> Rot(text, j)[k]] : j \in {x \in 1..n : RotLess(text, x, i)}})]
   IN /\ IsOrderCert(text, nx, ord, cl)
      /\ n <= 4 => \A o \in Perms(n) : \A c \in [1..n -> 1..n] :
           IsOrderCert(text, nx, o, c) => Column(text, o, LAMBDA i : CycPrev(text, i)) = rb
Export == Finished => PrintT(ToJson([t |-> text, sa |-> sa, tb |-> tb, rb |-> rb, bb |-> bb, nb |-> SuffixBwt(text, SAOf(text))]))
=============================================================================
