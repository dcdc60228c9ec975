------------------------------ MODULE MC_Border ------------------------------
(* The failure function computes borders; periods, primitivity, smallest       *)
(* rotation (Duval on the doubled text, as the code does), prenecklaces.       *)
EXTENDS Words, Json

CONSTANTS SIGMA, MAXN, PREN

VARIABLES text, b, d, s
vars == <<text, b, d, s>>

Init == /\ text \in Texts(1..SIGMA, 1, MAXN)
        /\ b = <<0>>
        /\ d = DuvalInit
        /\ s = [j |-> 2, p |-> 1]
Border == /\ Len(b) <= Len(text)
          /\ b' = Append(b, BorderNext(text, b))
          /\ UNCHANGED <<text, d, s>>
Pre == /\ Len(b) > Len(text) /\ s.j <= Len(text)
       /\ s' = PreStep(text, s)
       /\ UNCHANGED <<text, b, d>>
Duval == /\ Len(b) > Len(text) /\ s.j > Len(text) /\ d.pc # "done"
         /\ d' = DuvalStep(text \o text, d)
         /\ UNCHANGED <<text, b, s>>
Next == Border \/ Pre \/ Duval

N == Len(text)
BordersDone == Len(b) = N + 1
BorderRight == \A k \in 1..Len(b) : b[k] = BorderDef(SubSeq(text, 1, k - 1))
PeriodRight == BordersDone => N - b[N+1] = PeriodDef(text)
PrimitiveRight == BordersDone => LET p == N - b[N+1] IN IsPower(text) <=> (p < N /\ N % p = 0)
PreRight == BordersDone /\ s.j = N + 1 /\ N <= PREN =>
               /\ (s.p # 0) <=> IsPrenecklaceDef(text, 1..SIGMA, N)
               /\ (s.p # 0) <=> IsPrenecklace(text)
               /\ (s.p # 0) <=> PrenecklaceFrom(text, 2, 1)
(* the rotation found on the doubled text: behind the last factor that ends    *)
(* before position n                                                           *)
RotStart == LET E == {e \in {d.out[i] : i \in 1..Len(d.out)} : e < N} IN IF E = {} THEN 1 ELSE MaxOf(E) + 1
PeriodOfRotations == IF IsPower(text) THEN PeriodDef(text) ELSE N
SmallestRight == d.pc = "done" => /\ IsSmallestRotation(text, RotStart)
                                  /\ (~IsPower(text) => Cardinality({i \in 1..N : IsSmallestRotation(text, i)}) = 1)
                                  /\ Cardinality({Rot(text, i) : i \in 1..N}) = PeriodOfRotations
Export == d.pc = "done" => PrintT(ToJson([t |-> text, b |-> b, p |-> PeriodDef(text), prim |-> ~IsPower(text), pre |-> s.p # 0,
                                          rots |-> {i \in 1..N : IsSmallestRotation(text, i)}]))
=============================================================================
