------------------------------ MODULE LexEnum ------------------------------
(* The search for binary strings whose lex-parse size depends on the order   *)
(* of the alphabet.  Strings are examined in the order of the number whose   *)
(* binary digits (lowest first) they spell.                                  *)
EXTENDS Parse

RECURSIVE Spell(_, _, _)
Spell(num, len, lo) == IF len = 0 THEN <<>> ELSE <<lo + (num % 2)>> \o Spell(num \div 2, len - 1, lo)
Renamed(w) == [i \in 1..Len(w) |-> 195 - w[i]]            \* exchanges a and b
(* number of factors of the text with the terminator                          *)
RECURSIVE CountFrom(_, _, _, _, _)
CountFrom(t, sa, rk, i, cnt) == IF i > Len(t) THEN cnt
                                ELSE CountFrom(t, sa, rk, Advance(i, LexFactor(t, sa, rk, i)), cnt + 1)
SAOfRanks(t, rk) == LET inv == [r \in 1..Len(t) |-> CHOOSE i \in 1..Len(t) : rk[i] = r] IN inv
LexCount(w) == LET t == Append(w, 0)
                   rk == TLCEval(Ranks(t))
                   sa == TLCEval(SAOfRanks(t, rk))
               IN CountFrom(t, sa, rk, 1, 0)
Difference(w) == LET x == LexCount(w)
                     y == LexCount(Renamed(w))
                 IN IF x < y THEN y - x ELSE x - y
=============================================================================
