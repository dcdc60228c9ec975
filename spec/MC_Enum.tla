------------------------------ MODULE MC_Enum ------------------------------
(* The successor functions enumerate exactly the sets they should, in order.   *)
EXTENDS Words, Json

CONSTANTS KIND, CASES      \* CASES: numbers 1000 * (maximum or fixed length) + alphabet size

VARIABLES cas, w, out
vars == <<cas, w, out>>
kind == KIND
m == cas \div 1000
sg == cas % 1000
Succ(v) == IF kind = "lyndon" THEN LyndonSucc(v, m, sg) ELSE NextString(v, 0, sg - 1)

Init == cas \in CASES /\ w = (IF kind = "lyndon" THEN <<0>> ELSE Const(0, cas \div 1000)) /\ out = <<w>>
Next == /\ w # <<>> /\ Succ(w) # <<>>
        /\ w' = Succ(w) /\ out' = Append(out, w') /\ cas' = cas

Member(v) == IF kind = "lyndon" THEN Len(v) <= m /\ IsLyndonWord(v) ELSE Len(v) = m
Sound == Member(w) /\ \A i \in 1..Len(w) : w[i] \in 0..sg-1
Ordered == Len(out) > 1 => SeqLess(out[Len(out) - 1], w)
Complete == Succ(w) = <<>> =>
              {out[i] : i \in 1..Len(out)} =
                IF kind = "lyndon" THEN {v \in Texts(0..sg-1, 1, m) : IsLyndonWord(v)} ELSE Texts(0..sg-1, m, m)
Export == Succ(w) = <<>> => PrintT(ToJson([kind |-> kind, m |-> m, sg |-> sg, out |-> out]))
=============================================================================
