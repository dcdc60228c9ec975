----------------------------- MODULE MC_LexEnum -----------------------------
(* The search itself, for short strings: records are printed as they come.   *)
(* The stream only grows, and the last record is the maximum of all strings. *)
EXTENDS LexEnum, Json

CONSTANTS LENGTH

VARIABLES len, num, best, printed
vars == <<len, num, best, printed>>
Init == len \in 1..LENGTH /\ num = 0 /\ best = 0 /\ printed = <<>>
D == Difference(Spell(num, len, 97))
Examine == /\ num < 2^len
           /\ num' = num + 1 /\ len' = len
           /\ IF D >= best THEN best' = D /\ printed' = Append(printed, <<num, D>>) ELSE UNCHANGED <<best, printed>>
Next == Examine
Growing == \A i \in 2..Len(printed) : printed[i-1][2] <= printed[i][2]
Record == num = 2^len => \A m \in 0..num-1 : Difference(Spell(m, len, 97)) <= best
(* renaming twice is the identity; a string and its renaming have the same difference *)
Symmetric == num < 2^len => LET w == Spell(num, len, 97) IN Renamed(Renamed(w)) = w /\ Difference(w) = Difference(Renamed(w))
(* exactly the strings that reach the record of their moment are printed      *)
Complete == \A m \in 0..num-1 : LET d == Difference(Spell(m, len, 97))
                                    before == {printed[i][2] : i \in {j \in 1..Len(printed) : printed[j][1] < m}}
                                IN (\E i \in 1..Len(printed) : printed[i] = <<m, d>>) <=> (\A b \in before : d >= b)
Finished == num = 2^len => best = MaxOf({Difference(Spell(m, len, 97)) : m \in 0..2^len-1})
=============================================================================
