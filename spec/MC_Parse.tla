------------------------------ MODULE MC_Parse ------------------------------
(* Exhaustive over short texts: the greedy LZ77 parser (with every choice of *)
(* source) followed by the decoder; lex-parse followed by the resolution of  *)
(* its references; minimal unique substrings by definition and by ranks.     *)
EXTENDS Parse, Json

CONSTANTS SIGMA, MAXN

VARIABLES text, pc, i, lz, dec, k, lex, known, sa, rk, alive
vars == <<text, pc, i, lz, dec, k, lex, known, sa, rk, alive>>

n == Len(text)
RECURSIVE SumLens(_, _)
SumLens(fs, x) == IF x = 0 THEN 0 ELSE Max2(fs[x][2], 1) + SumLens(fs, x - 1)
SetToSeq2(S) == LET F[T \in SUBSET S] == IF T = {} THEN <<>>
                      ELSE LET m == CHOOSE x \in T : \A y \in T : x[1] <= y[1] IN <<m>> \o F[T \ {m}] IN F[S]
Init == /\ text \in Texts(1..SIGMA, 1, MAXN)
        /\ pc = "lz" /\ i = 1 /\ lz = <<>> /\ dec = <<>> /\ k = 1 /\ lex = <<>> /\ known = <<>>
        /\ sa = SAOf(text) /\ rk = Ranks(text) /\ alive = TRUE

LzEmit == /\ pc = "lz" /\ i <= n
          /\ \E f \in LzFactors(text, i) : lz' = Append(lz, f) /\ i' = Advance(i, f)
          /\ UNCHANGED <<text, pc, dec, k, lex, known, sa, rk, alive>>
LzEnd == /\ pc = "lz" /\ i > n /\ pc' = "decode"
         /\ UNCHANGED <<text, i, lz, dec, k, lex, known, sa, rk, alive>>
Decode == /\ pc = "decode" /\ k <= Len(lz)
          /\ dec' = LzDecode1(dec, lz[k]) /\ k' = k + 1
          /\ UNCHANGED <<text, pc, i, lz, lex, known, sa, rk, alive>>
DecodeEnd == /\ pc = "decode" /\ k > Len(lz)
             \* the choice of sources does not matter any more
             /\ pc' = "lex" /\ i' = 1 /\ k' = Len(lz) /\ lz' = [x \in 1..Len(lz) |-> lz[x][2]]
             /\ UNCHANGED <<text, dec, lex, known, sa, rk, alive>>
LexEmit == /\ pc = "lex" /\ i <= n
           /\ LET f == LexFactor(text, sa, rk, i) IN lex' = Append(lex, f) /\ i' = Advance(i, f)
           /\ UNCHANGED <<text, pc, lz, dec, k, known, sa, rk, alive>>
LexEnd == /\ pc = "lex" /\ i > n
          /\ pc' = "resolve" /\ known' = LexLits(lex, <<>>)
          /\ UNCHANGED <<text, i, lz, dec, k, lex, sa, rk, alive>>
Resolve == /\ pc = "resolve" /\ \E x \in 1..n : known[x] = -1
           /\ LET nk == LexResolve(LexRefs(lex, <<>>), known) IN known' = nk /\ alive' = (nk # known)
           /\ UNCHANGED <<text, pc, i, lz, dec, k, lex, sa, rk>>
Next == LzEmit \/ LzEnd \/ Decode \/ DecodeEnd \/ LexEmit \/ LexEnd \/ Resolve

LzDecodes == /\ pc = "decode" => \A x \in 1..Len(dec) : dec[x] = text[x]
             /\ pc = "lex" => dec = text
LzFactorsRight == pc = "lz" => \A x \in 1..Len(lz) :
   LET p == 1 + SumLens(lz, x - 1) IN IsLzFactor(text, p, lz[x])
(* the check by definition and the check by ranks agree, and accept exactly the permitted factors *)
LzCheckExact == pc = "lz" /\ i <= n /\ n <= 5 =>
   \A l \in 0..n+1 : \A x \in 1..Max2(n, SIGMA) : (<<x, l>> \in LzFactors(text, i)) = IsLzFactor(text, i, <<x, l>>)
LzRankExact == pc = "lz" /\ i <= n =>
   \A l \in 0..n-i : LET S == {r \in 1..n : Same(text, sa[r], i, l + 1)}
                     IN NoEarlierByRank(text, sa, rk, i, l, MinOf(S), MaxOf(S)) = (Sources(text, i, l + 1) = {})
LexCheckExact == pc = "lex" /\ i <= n =>
   \A l \in 0..n : \A x \in 0..Max2(n, SIGMA) : (<<x, l>> = LexFactor(text, sa, rk, i)) = IsLexFactor(text, sa, rk, i, <<x, l>>)
(* no circular references: resolution always gets further, and yields the text *)
LexAcyclic == alive
LexDecodes == pc = "resolve" => \A x \in 1..n : known[x] \in {-1, text[x]}
rep == [x \in 1..n+1 |-> LongestRepeat(text, sa, rk, x)]
MusAgree == pc = "lex" /\ i = 1 => MusDef(text) = {<<x, MusLength(n, rep, x)>> : x \in {y \in 1..n : MusLength(n, rep, y) > 0}}
RepAgree == pc = "lex" /\ i = 1 => \A x \in 1..n : rep[x] = MaxOf({0} \cup {l \in 1..n - x + 1 : Occurrences(text, x, l) > 1})
(* the common prefix with either neighbour shrinks by at most one per position *)
PL(x, q) == IF q = 0 THEN 0 ELSE LcpAt(text, x, q)
KasaiBoth == pc = "lex" /\ i = 1 => \A x \in 2..n :
   /\ PL(x, PredOf(sa, rk, x)) >= PL(x-1, PredOf(sa, rk, x-1)) - 1
   /\ PL(x, SuccOf(sa, rk, x)) >= PL(x-1, SuccOf(sa, rk, x-1)) - 1
Export == pc = "resolve" /\ (\A x \in 1..n : known[x] # -1) =>
  PrintT(ToJson([t |-> text, lz |-> lz, lex |-> lex, mus |-> SetToSeq2(MusDef(text))]))
=============================================================================
