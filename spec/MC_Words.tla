------------------------------ MODULE MC_Words ------------------------------
(* One behaviour per morphism: the word is replaced by its image.  Compares   *)
(* the iterates with their lengths, with the descent CharAt, and with other   *)
(* characterizations; exports every iterate.                                  *)
EXTENDS Words, Json

CONSTANTS MAXLEN

VARIABLES name, k, w, prev
vars == <<name, k, w, prev>>

Init == /\ name \in DOMAIN Mor
        /\ k = 0
        /\ w = StartWord(name)
        /\ prev = <<>>
Next == /\ Len(Image(Mor[name], w)) <= MAXLEN
        /\ k' = k + 1
        /\ w' = Image(Mor[name], w)
        /\ prev' = w
        /\ name' = name

IsPrefix(u, v) == Len(u) <= Len(v) /\ u = SubSeq(v, 1, Len(u))
RECURSIVE Ones(_)
Ones(n) == IF n = 0 THEN 0 ELSE (n % 2) + Ones(n \div 2)
RECURSIVE Val2(_)
Val2(n) == IF n % 2 = 1 THEN 0 ELSE 1 + Val2(n \div 2)

LengthRight == Len(w) = WordLen(name, k)
DescentRight == LET L == Lens(Mor[name], k) IN \A p \in 1..Len(w) : CharAt(Mor[name], L, k, StartWord(name), p) = w[p]
PrefixRight == name # "lyndon" => IsPrefix(prev, w)
ThueRight == name = "thue" => Len(w) = TwoTo(k) /\ \A p \in 1..Len(w) : w[p] = IF Ones(p - 1) % 2 = 0 THEN chA ELSE chB
DoublingRight == name = "doubling" => Len(w) = TwoTo(k) /\ \A p \in 1..Len(w) : w[p] = IF Val2(p) % 2 = 0 THEN chA ELSE chB
(* f(k+1) = f(k) f(k-1); the lengths follow the recurrences                    *)
FibRight == name = "fibonacci" /\ k >= 2 => w = prev \o SubSeq(prev, 1, Len(w) - Len(prev))
                                            /\ Len(w) = Len(prev) + WordLen("fibonacci", k - 2)
TribRight == name = "tribonacci" /\ k >= 3 =>
               /\ Len(w) = Len(prev) + WordLen("tribonacci", k - 2) + WordLen("tribonacci", k - 3)
               /\ w = prev \o SubSeq(prev, 1, WordLen("tribonacci", k - 2)) \o SubSeq(prev, 1, WordLen("tribonacci", k - 3))
Same2(t, i, j, l) == \A h \in 0..l-1 : t[i+h] = t[j+h]
VtmRight == name = "vtm" /\ k >= 2 =>
              /\ Len(w) = 3 * TwoTo(k - 1)
              /\ Len(w) <= 100 => \A i \in 1..Len(w) : \A l \in 1..(Len(w) - i + 1) \div 2 : ~Same2(w, i, i + l, l)
(* the k-th Lyndon factor of the infinite Fibonacci word starts behind the      *)
(* previous ones; k-th factor has length F(2k+3)                                *)
RECURSIVE FactorsBefore(_)
FactorsBefore(n) == IF n = 0 THEN 0 ELSE WordLen("lyndon", n - 1) + FactorsBefore(n - 1)
LyndonRight == name = "lyndon" =>
                 /\ Len(w) <= 400 => IsLyndonWord(w)
                 /\ prev # <<>> => SeqLess(w, prev)
                 /\ LET f == FactorsBefore(k)
                        L == Lens(Mor.fibonacci, 2 * k + 4)
                    IN \A i \in 1..Len(w) : CharAt(Mor.fibonacci, L, 2 * k + 4, <<chA>>, f + i) = w[i]
Export == PrintT(ToJson([name |-> name, k |-> k, w |-> w]))
=============================================================================
