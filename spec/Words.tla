------------------------------- MODULE Words -------------------------------
(* Borders, periods, primitivity; enumerations; morphic and automatic words; *)
(* de Bruijn words; random text generators.                                  *)
EXTENDS Bwt

(* ---- borders --------------------------------------------------------------- *)
IsBorder(w, b) == b < Len(w) /\ \A k \in 1..b : w[k] = w[Len(w) - b + k]
BorderDef(w) == IF Len(w) <= 1 THEN 0 ELSE MaxOf({b \in 0..Len(w)-1 : IsBorder(w, b)})
IsPeriod(w, p) == p >= 1 /\ \A i \in 1..Len(w) - p : w[i] = w[i + p]
PeriodDef(w) == LeastIn(1, Len(w), LAMBDA p : IsPeriod(w, p), 0)
(* w is a repetition of a shorter string                                       *)
IsPower(w) == \E d \in 1..Len(w)-1 : Len(w) % d = 0 /\ w = Extend(SubSeq(w, 1, d), Len(w))
(* failure function; b[k+1] is the border of the prefix of length k.  Fall is  *)
(* the border of the prefix that ends with c and whose predecessor has border k *)
RECURSIVE Fall(_, _, _, _)
Fall(w, b, k, c) == IF w[k+1] = c THEN k + 1 ELSE IF k = 0 THEN 0 ELSE Fall(w, b, b[k+1], c)
BorderNext(w, b) == LET i == Len(b)            \* entry for the prefix of length i
                    IN IF i <= 1 THEN 0 ELSE Fall(w, b, b[i], w[i])

(* ---- enumerations ------------------------------------------------------------ *)
(* successor among the strings of the same length over lo..hi, <<>> if none     *)
NextString(w, lo, hi) ==
  LET S == {i \in 1..Len(w) : w[i] # hi}
  IN IF S = {} THEN <<>>
     ELSE LET e == MaxOf(S) IN [i \in 1..Len(w) |-> IF i < e THEN w[i] ELSE IF i = e THEN w[i] + 1 ELSE lo]
Const(c, n) == [i \in 1..n |-> c]

(* ---- numbers as sequences of digits, lowest first, without leading zeros ----- *)
RECURSIVE AddDigits(_, _, _, _)
AddDigits(x, y, base, carry) ==
  IF x = <<>> /\ y = <<>> THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET a == IF x = <<>> THEN 0 ELSE Head(x)
           b == IF y = <<>> THEN 0 ELSE Head(y)
           s == a + b + carry
       IN <<s % base>> \o AddDigits(IF x = <<>> THEN x ELSE Tail(x), IF y = <<>> THEN y ELSE Tail(y), base, s \div base)
DigitAt(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
DigitsLess(x, y) ==
  LET m == Max2(Len(x), Len(y))
      D == {i \in 1..m : DigitAt(x, i) # DigitAt(y, i)}
  IN D # {} /\ DigitAt(x, MaxOf(D)) < DigitAt(y, MaxOf(D))

(* ---- morphisms ----------------------------------------------------------------- *)
chA == 97
chB == 98
chC == 99
Mor == [ fibonacci  |-> [x \in {chA, chB} |-> IF x = chA THEN <<chA, chB>> ELSE <<chA>>],
         tribonacci |-> [x \in {chA, chB, chC} |-> IF x = chA THEN <<chA, chB>> ELSE IF x = chB THEN <<chA, chC>> ELSE <<chA>>],
         thue       |-> [x \in {chA, chB} |-> IF x = chA THEN <<chA, chB>> ELSE <<chB, chA>>],
         doubling   |-> [x \in {chA, chB} |-> IF x = chA THEN <<chA, chB>> ELSE <<chA, chA>>],
         vtm        |-> [x \in {chA, chB, chC} |-> IF x = chA THEN <<chA, chB, chC>> ELSE IF x = chB THEN <<chA, chC>> ELSE <<chB>>],
         lyndon     |-> [x \in {chA, chB} |-> IF x = chA THEN <<chA, chA, chB>> ELSE <<chA, chB>>] ]
StartWord(name) == IF name = "lyndon" THEN <<chA, chB>> ELSE <<chA>>
RECURSIVE ImageFrom(_, _, _)
ImageFrom(m, w, i) == IF i > Len(w) THEN <<>> ELSE m[w[i]] \o ImageFrom(m, w, i + 1)
Image(m, w) == ImageFrom(m, w, 1)
RECURSIVE SumLen(_, _, _)
SumLen(L, w, i) == IF i > Len(w) THEN 0 ELSE L[w[i]] + SumLen(L, w, i + 1)
(* Lens(m, k)[j+1][x] = length of the j-fold image of the letter x, j = 0..k      *)
RECURSIVE LensFrom(_, _, _)
LensFrom(m, k, acc) == IF Len(acc) > k THEN acc
                       ELSE LensFrom(m, k, Append(acc, TLCEval([x \in DOMAIN m |-> SumLen(acc[Len(acc)], m[x], 1)])))
Lens(m, k) == TLCEval(LensFrom(m, k, <<TLCEval([x \in DOMAIN m |-> 1])>>))
(* the character at position p (from 1) of the k-fold image of w                  *)
RECURSIVE CharAt(_, _, _, _, _)
CharAt(m, L, k, w, p) ==
  IF k = 0 THEN w[p]
  ELSE IF p <= L[k+1][w[1]] THEN CharAt(m, L, k - 1, m[w[1]], p)
       ELSE CharAt(m, L, k, Tail(w), p - L[k+1][w[1]])
WordLen(name, k) == SumLen(Lens(Mor[name], k)[k+1], StartWord(name), 1)

(* ---- words given by a rule for every position ------------------------------------ *)
RECURSIVE OddPart(_)
OddPart(n) == IF n % 2 = 1 THEN n ELSE OddPart(n \div 2)
RECURSIVE IsPow2(_)
IsPow2(n) == n = 1 \/ (n % 2 = 0 /\ IsPow2(n \div 2))
Fold(n) == IF OddPart(n) % 4 = 1 THEN 49 ELSE 48
FoldPair(n) == 97 + 2 * (Fold(2 * n - 1) - 48) + (Fold(2 * n) - 48)
Power2At(n) == IF IsPow2(n) THEN 98 ELSE 97
RECURSIVE TwoTo(_)
TwoTo(k) == IF k = 0 THEN 1 ELSE 2 * TwoTo(k - 1)
RuleAt(name, n) == CASE name = "fold" -> Fold(n) [] name = "fold4" -> FoldPair(n) [] name = "power2" -> Power2At(n)
RuleLen(name, k) == IF name = "fold" THEN TwoTo(k + 1) ELSE TwoTo(k)

(* ---- Kolakoski: s = next free position of t; the run lengths of t are the events -- *)
RunAt(t, p, e, odd) ==      \* the run of e characters that starts at p
  LET c == IF odd THEN chB ELSE chA
  IN p + e - 1 <= Len(t) /\ \A i \in p..p+e-1 : t[i] = c
RECURSIVE KolExpand(_, _, _)
KolExpand(w, i, odd) == IF i > Len(w) THEN <<>>
                        ELSE Const(IF odd THEN chB ELSE chA, w[i] - 96) \o KolExpand(w, i + 1, ~odd)

(* ---- de Bruijn words ---------------------------------------------------------------- *)
RECURSIVE WindowVal(_, _, _, _)
WindowVal(t, i, m, acc) == IF m = 0 THEN acc
                           ELSE WindowVal(t, i + 1, m - 1, 2 * acc + (t[((i - 1) % Len(t)) + 1] - 97))
IsDeBruijn(t, m) == /\ Len(t) = TwoTo(m)
                    /\ \A i \in 1..Len(t) : t[i] \in {chA, chB}
                    /\ Cardinality({WindowVal(t, i, m, 0) : i \in 1..Len(t)}) = Len(t)
(* the shift rule of Sawada, Williams and Wong on a window w                            *)
ShiftRule(w) == LET x == Append(Tail(w), chB)
                IN IF IsNecklace(x) THEN (IF w[1] = chA THEN chB ELSE chA) ELSE w[1]
(* prefix of a necklace, one comparison per character: s = [j, p]; p = 0: refuted       *)
PreStep(w, s) == IF s.p = 0 THEN [s EXCEPT !.j = s.j + 1]
                 ELSE [j |-> s.j + 1, p |-> IF w[s.j] < w[s.j - s.p] THEN 0 ELSE IF w[s.j] > w[s.j - s.p] THEN s.j ELSE s.p]
RECURSIVE PrenecklaceFrom(_, _, _)
PrenecklaceFrom(w, j, p) == IF j > Len(w) THEN TRUE
                            ELSE IF w[j] < w[j - p] THEN FALSE
                            ELSE PrenecklaceFrom(w, j + 1, IF w[j] > w[j - p] THEN j ELSE p)

(* ---- random text generators ------------------------------------------------------------ *)
Alphanumeric == (48..57) \cup (65..90) \cup (97..122)
(* the text for the number with the bits x (lowest first), base 2^k                        *)
RECURSIVE BitsVal(_, _, _)
BitsVal(x, i, n) == IF n = 0 THEN 0 ELSE DigitAt(x, i) + 2 * BitsVal(x, i + 1, n - 1)
RsgText(x, k) == Append([d \in 1..Max2((Len(x) \div k) - 1, 0) |-> BitsVal(x, d * k + 1, k) + 1], 0)
=============================================================================
