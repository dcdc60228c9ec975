------------------------------- MODULE Codec -------------------------------
(* The byte transducers: escaping, run-length encoding (three variants),     *)
(* move-to-front, and their decoders.                                        *)
EXTENDS Strings

(* ---- escaping -------------------------------------------------------------- *)
(* c = [e, from, to]: escape symbol, symbols to escape, safe symbols            *)
Accepted(c) == /\ Len(c.from) = Len(c.to)
               /\ c.e \notin Range(c.from) /\ c.e \notin Range(c.to)
               /\ Range(c.from) \cap Range(c.to) = {}
               /\ \A i, j \in 1..Len(c.to) : i # j => c.to[i] # c.to[j]
(* (a symbol listed twice among those to escape may use either safe symbol)      *)
EscBytes(c, b) == IF b = c.e THEN {<<b, b>>}
                  ELSE IF b \in Range(c.from) THEN {<<c.e, c.to[i]>> : i \in {x \in 1..Len(c.from) : c.from[x] = b}}
                  ELSE {<<b>>}
(* reversion, one byte at a time: s = [esc, out, bad]                            *)
UnescInit == [esc |-> FALSE, out |-> <<>>, bad |-> FALSE]
UnescByte(c, s, b) ==
  IF s.bad THEN s
  ELSE IF ~s.esc THEN IF b = c.e THEN [s EXCEPT !.esc = TRUE] ELSE [s EXCEPT !.out = Append(@, b)]
  ELSE IF b = c.e THEN [esc |-> FALSE, out |-> Append(s.out, b), bad |-> FALSE]
  ELSE IF b \in Range(c.to) THEN [esc |-> FALSE, out |-> Append(s.out, c.from[CHOOSE i \in 1..Len(c.to) : c.to[i] = b]), bad |-> FALSE]
  ELSE [s EXCEPT !.bad = TRUE]
UnescOk(s) == ~s.bad /\ ~s.esc

(* ---- run-length encoding --------------------------------------------------- *)
(* CAP repetitions at most per pair (256)                                       *)
RleInit == [prev |-> -1, n |-> 0, out |-> <<>>]
RleByte(CAP, s, b) ==
  IF s.prev = -1 THEN [s EXCEPT !.prev = b, !.n = 1]
  ELSE IF b = s.prev /\ s.n < CAP THEN [s EXCEPT !.n = @ + 1]
  ELSE [prev |-> b, n |-> 1, out |-> s.out \o <<s.prev, s.n - 1>>]
RleEnd(s) == IF s.prev = -1 THEN s.out ELSE s.out \o <<s.prev, s.n - 1>>
(* only runs of the byte Z are encoded                                           *)
RlzInit == [n |-> 0, out |-> <<>>]
RlzByte(CAP, Z, s, b) ==
  IF b # Z THEN [n |-> 0, out |-> (IF s.n > 0 THEN s.out \o <<Z, s.n - 1>> ELSE s.out) \o <<b>>]
  ELSE IF s.n = CAP THEN [n |-> 1, out |-> s.out \o <<Z, CAP - 1>>]
  ELSE [s EXCEPT !.n = @ + 1]
RlzEnd(Z, s) == IF s.n > 0 THEN s.out \o <<Z, s.n - 1>> ELSE s.out
(* maximal runs, as pairs <<byte, length>>: the human-readable variant            *)
RunsOfByte(s, b) == IF s # <<>> /\ s[Len(s)][1] = b THEN [s EXCEPT ![Len(s)][2] = @ + 1] ELSE Append(s, <<b, 1>>)
Utf8(b) == IF b < 128 THEN <<b>> ELSE <<192 + (b \div 64), 128 + (b % 64)>>
HumanPair(p) == <<40>> \o Utf8(p[1]) \o <<44>> \o Dec(p[2]) \o <<41>>
Repeat(b, n) == [i \in 1..n |-> b]
(* decoders, one byte of the code at a time: s = [key, out], key = -1: none        *)
UnrleByte(s, b) == IF s.key = -1 THEN [s EXCEPT !.key = b] ELSE [key |-> -1, out |-> s.out \o Repeat(s.key, b + 1)]
UnrlzByte(Z, s, b) == IF s.key = -1 THEN (IF b = Z THEN [s EXCEPT !.key = b] ELSE [s EXCEPT !.out = Append(@, b)])
                      ELSE [key |-> -1, out |-> s.out \o Repeat(s.key, b + 1)]

(* ---- move-to-front ---------------------------------------------------------- *)
MtfList(A) == [i \in 1..A |-> i - 1]
PosIn(l, b) == LeastIn(1, Len(l), LAMBDA i : l[i] = b, 0)
ToFront(l, p) == IF p = 1 THEN l ELSE [i \in 1..Len(l) |-> IF i = 1 THEN l[p] ELSE IF i <= p THEN l[i-1] ELSE l[i]]
(* closed form: distinct bytes since the last occurrence of t[i], or, for a new     *)
(* byte, the smaller bytes plus the larger ones already seen                        *)
MtfDef(t, i) ==
  LET prev == {j \in 1..i-1 : t[j] = t[i]}
  IN IF prev = {} THEN t[i] + Cardinality({t[j] : j \in 1..i-1} \cap {b \in Range(t) : b > t[i]})
     ELSE Cardinality({t[j] : j \in MaxOf(prev)+1..i-1})
=============================================================================
