------------------------------ MODULE MC_Calls ------------------------------
(* Two generators of every pair of kinds and sizes, two functions calls, and   *)
(* all histories of at most DEPTH steps over them.                             *)
EXTENDS Calls, Json

CONSTANTS DEPTH, MAXM, PERIODS

D(g, m, sg, t) == [g |-> g, m |-> m, sg |-> sg, t |-> t]
Descs == {D("lwg", m, sg, <<>>) : m \in 0..MAXM, sg \in 1..2} \cup {D("bsg", m, 0, <<>>) : m \in 0..MAXM}
         \cup {D("conj", 0, 0, t) : t \in Texts(0..1, 0, MAXM) \ {<<1>>}}
(* the functions that are called in between: the smallest period, the smallest   *)
(* rotation, for the texts in PERIODS                                            *)
Period(t) == PeriodDef(t)
Answer(c) == IF c.f = "period" THEN Period(c.t)
             ELSE LeastIn(1, Len(c.t), LAMBDA i : IsSmallestRotation(c.t, i), 0) - 1
CallPairs == {<<[f |-> f, t |-> <<0, 1, 1>>], [f |-> h, t |-> <<1, 0, 1>>]>> : f \in PERIODS, h \in PERIODS}

VARIABLES ds, cs, ss, hist
vars == <<ds, cs, ss, hist>>
Init == /\ ds \in Descs \X Descs
        /\ cs \in CallPairs
        /\ ss = <<New(ds[1]), New(ds[2])>>
        /\ hist = <<>>
More == Len(hist) < DEPTH
Ask == More /\ \E i \in 1..2 :
         LET x == Peek(ds[i], ss[i])
         IN /\ ss' = [ss EXCEPT ![i] = Advanced(ds[i], ss[i], x)]
            /\ hist' = Append(hist, [o |-> "n", i |-> i, x |-> x])
            /\ UNCHANGED <<ds, cs>>
Renew == More /\ \E i \in 1..2 :
           /\ ss' = [ss EXCEPT ![i] = New(ds[i])]
           /\ hist' = Append(hist, [o |-> "r", i |-> i, x |-> None])
           /\ UNCHANGED <<ds, cs>>
CallF == More /\ \E i \in 1..2 :
           /\ hist' = Append(hist, [o |-> "c", i |-> i, x |-> <<2, <<Answer(cs[i])>>>>])
           /\ UNCHANGED <<ds, cs, ss>>
Next == Ask \/ Renew \/ CallF

(* the number of requests to i since it was last created                        *)
Since(i) == LET R == {k \in 1..Len(hist) : hist[k].o = "r" /\ hist[k].i = i}
                from == IF R = {} THEN 0 ELSE MaxOf(R)
            IN Cardinality({k \in from+1..Len(hist) : hist[k].o = "n" /\ hist[k].i = i})
Own == hist # <<>> /\ hist[Len(hist)].o = "n" =>
         LET e == hist[Len(hist)]
             n == Since(e.i)
             q == Declared(ds[e.i])
         IN e.x = IF n <= Len(q) THEN Some(q[n]) ELSE None
(* the same call, the same answer                                                *)
Same == \A j, k \in 1..Len(hist) : hist[j].o = "c" /\ hist[k].o = "c" /\ cs[hist[j].i] = cs[hist[k].i] => hist[j].x = hist[k].x
Export == Len(hist) = DEPTH => PrintT(ToJson([d |-> ds, c |-> cs, h |-> hist]))
=============================================================================
