----------------------------- MODULE MC_Escape -----------------------------
(* All short texts, all choices of symbols: escaping, then reversion; and    *)
(* reversion of arbitrary (possibly malformed) input.                        *)
EXTENDS Codec, Json

CONSTANTS A, MAXN, MAXL

VARIABLES cfg, text, i, esc, j, back, raw
vars == <<cfg, text, i, esc, j, back, raw>>
Sym == 0..A-1
Init == /\ cfg \in [e : Sym, from : Texts(Sym, 0, MAXL), to : Texts(Sym, 0, MAXL)]
        /\ text \in (IF Accepted(cfg) THEN Texts(Sym, 0, MAXN) ELSE {<<>>})
        /\ i = 1 /\ esc = <<>> /\ j = 1
        /\ back = UnescInit /\ raw = UnescInit
n == Len(text)
RECURSIVE Escapes(_)
Escapes(s) == IF s = <<>> THEN {<<>>} ELSE {w \o v : w \in EscBytes(cfg, Head(s)), v \in Escapes(Tail(s))}
Escape == /\ Accepted(cfg) /\ i <= n
          /\ \E w \in EscBytes(cfg, text[i]) : esc' = esc \o w
          /\ raw' = UnescByte(cfg, raw, text[i])
          /\ i' = i + 1
          /\ UNCHANGED <<cfg, text, j, back>>
Revert == /\ Accepted(cfg) /\ i > n /\ j <= Len(esc)
          /\ back' = UnescByte(cfg, back, esc[j]) /\ j' = j + 1
          /\ UNCHANGED <<cfg, text, i, esc, raw>>
Next == Escape \/ Revert
Done == i > n /\ j > Len(esc)
Safe == \A x \in 1..Len(esc) : esc[x] \notin Range(cfg.from)
Lossless == Done => UnescOk(back) /\ back.out = text
NeverBad == ~back.bad /\ \A x \in 1..Len(back.out) : back.out[x] = text[x]
(* what reversion accepts without a raw symbol to escape is exactly what escaping produces *)
Canonical == Done /\ UnescOk(raw) /\ (\A x \in 1..n : text[x] \notin Range(cfg.from)) =>
   text \in Escapes(raw.out)
Export == (Accepted(cfg) => Done) => PrintT(ToJson([e |-> cfg.e, from |-> cfg.from, to |-> cfg.to, ok |-> Accepted(cfg),
   t |-> text, esc |-> esc, rawok |-> UnescOk(raw), raw |-> raw.out]))
=============================================================================
