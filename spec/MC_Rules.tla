------------------------------ MODULE MC_Rules ------------------------------
(* Paperfolding by folding paper, by the morphism on four letters and by the  *)
(* rule for each position; Kolakoski words; de Bruijn words by the shift rule; *)
(* the text generator.                                                        *)
EXTENDS Words, Json

CONSTANTS MAXFOLD, MAXKOL, MAXDB, MAXR

VARIABLES kind, k, w, x
vars == <<kind, k, w, x>>

Init == \/ kind = "fold"  /\ k = 0 /\ w = <<1>> /\ x = <<100>>
        \/ kind = "kol"   /\ k = 0 /\ w = <<chB, chB>> /\ x = <<>>
        \/ kind = "db"    /\ k \in 1..MAXDB /\ w = Const(chA, k) /\ x = <<>>
        \/ kind = "rsg"   /\ k \in 1..7 /\ w = <<>> /\ x = 0
FoldMor(c) == CASE c = 100 -> <<100, 98>> [] c = 98 -> <<99, 98>> [] c = 99 -> <<100, 97>> [] c = 97 -> <<99, 97>>
FoldPaper == /\ kind = "fold" /\ k < MAXFOLD /\ k' = k + 1 /\ kind' = kind
             /\ w' = w \o <<1>> \o [i \in 1..Len(w) |-> 1 - w[Len(w) + 1 - i]]    \* 2^(k+2) - 1 creases
             /\ x' = Flatten([i \in 1..Len(x) |-> FoldMor(x[i])])
Kol == /\ kind = "kol" /\ k < MAXKOL /\ k' = k + 1 /\ kind' = kind
       /\ x' = w /\ w' = KolExpand(w, 1, TRUE)
Shift == /\ kind = "db" /\ Len(x) < TwoTo(k) /\ UNCHANGED <<kind, k>>
         /\ x' = Append(x, ShiftRule(w)) /\ w' = Append(Tail(w), ShiftRule(w))
Inc == /\ kind = "rsg" /\ x < MAXR /\ UNCHANGED <<kind, k>>
       /\ x' = x + 1 /\ w' = AddDigits(w, <<1>>, 2, 0)
Next == FoldPaper \/ Kol \/ Shift \/ Inc

FoldRight == kind = "fold" => /\ \A p \in 1..Len(w) : w[p] = Fold(p) - 48
                              /\ Len(x) = RuleLen("fold4", k)
                              /\ \A p \in 1..Len(x) : x[p] = FoldPair(p)
KolRight == kind = "kol" => /\ SubSeq(w, 1, Len(x)) = x
                            /\ k > 0 => Len(w) = SumLen([c \in {chA, chB} |-> c - 96], x, 1)
DbRight == kind = "db" /\ Len(x) = TwoTo(k) => IsDeBruijn(x, k) /\ w = Const(chA, k)
DbEarly == kind = "db" /\ 0 < Len(x) /\ Len(x) < TwoTo(k) => w # Const(chA, k)
(* the digits of x in base 2^k without the lowest and the highest incomplete one *)
RECURSIVE Digits(_, _)
Digits(n, base) == IF n < base THEN <<n>> ELSE <<n % base>> \o Digits(n \div base, base)
RECURSIVE Log2(_)
Log2(n) == IF n = 0 THEN 0 ELSE 1 + Log2(n \div 2)
RsgRight == kind = "rsg" =>
              LET d == Digits(x, TwoTo(k))
                  full == Log2(x) \div k
              IN RsgText(w, k) = Append([i \in 1..Max2(full - 1, 0) |-> d[i+1] + 1], 0)
Export == kind = "kol" => PrintT(ToJson([k |-> k, w |-> w]))
=============================================================================
