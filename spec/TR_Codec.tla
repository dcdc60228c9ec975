------------------------------ MODULE TR_Codec ------------------------------
(* k = "esc" : out is the escaped form of t under the choice e, from, to       *)
(*             (one event per input byte); refused = no output                 *)
(* k = "un"  : reversion of t (one event per byte) gave out; failed = status   *)
(* k = "rle", "rlz" : one event <<b, n>> per run (hint), out the code          *)
(* k = "hum" : the same, out is the text (...,...)                             *)
(* k = "mtf" : one event <<byte, position>> per byte                           *)
EXTENDS Codec, TraceBase

CoSInit(r) == CASE r.k = "esc" -> Ok([i |-> 1, o |-> 0])
                [] r.k = "un"  -> Ok([i |-> 1, o |-> 0, esc |-> FALSE, bad |-> FALSE])
                [] r.k = "mtf" -> Ok([i |-> 1, l |-> MtfList(256)])
                [] OTHER -> Ok([i |-> 1, o |-> 0])
Matches(r, o, w) == o + Len(w) <= Len(r.out) /\ \A x \in 1..Len(w) : r.out[o + x] = w[x]
IsRun(t, i, b, n) == /\ n >= 1 /\ i + n - 1 <= Len(t) /\ \A x \in i..i+n-1 : t[x] = b
                     /\ (i + n <= Len(t) => t[i+n] # b) /\ (i > 1 => t[i-1] # b)
(* the pairs of a run of n bytes b                                             *)
RECURSIVE Pairs(_, _)
Pairs(b, n) == IF n > 256 THEN <<b, 255>> \o Pairs(b, n - 256) ELSE <<b, n - 1>>
CoSStep(r, s, e) ==
  CASE r.k = "esc" ->
         LET W == {w \in EscBytes(r.c, e) : Matches(r, s.o, w)}
         IN IF Assert(e = r.t[s.i], "events") /\ W # {} THEN Ok([i |-> s.i + 1, o |-> s.o + Len(CHOOSE w \in W : TRUE)]) ELSE Bad
    [] r.k = "un" ->
         LET u == UnescByte(r.c, [esc |-> s.esc, out |-> <<>>, bad |-> s.bad], e)
         IN IF ~Assert(e = r.t[s.i], "events") THEN Bad
            \* a failed reversion may have written less, but never anything else
            ELSE IF r.failed /\ s.o = Len(r.out) THEN Ok([i |-> s.i + 1, o |-> s.o, esc |-> u.esc, bad |-> u.bad])
            ELSE IF Matches(r, s.o, u.out) THEN Ok([i |-> s.i + 1, o |-> s.o + Len(u.out), esc |-> u.esc, bad |-> u.bad]) ELSE Bad
    [] r.k = "mtf" -> LET p == PosIn(s.l, e[1])
                      IN IF Assert(e[1] = r.t[s.i], "events") /\ p = e[2] + 1 THEN Ok([i |-> s.i + 1, l |-> ToFront(s.l, p)]) ELSE Bad
    [] OTHER ->
         LET w == CASE r.k = "rle" -> Pairs(e[1], e[2])
                    [] r.k = "rlz" -> IF e[1] = 48 THEN Pairs(48, e[2]) ELSE Repeat(e[1], e[2])
                    [] r.k = "hum" -> HumanPair(e)
         IN IF Assert(IsRun(r.t, s.i, e[1], e[2]), <<"events", r.id>>) /\ Matches(r, s.o, w)
            THEN Ok([i |-> s.i + e[2], o |-> s.o + Len(w)]) ELSE Bad
CoSFinal(r, s) ==
  CASE r.k = "esc" -> IF Accepted(r.c) THEN ~r.refused /\ s.i = Len(r.t) + 1 /\ s.o = Len(r.out)
                      ELSE r.refused /\ r.out = <<>>
    [] r.k = "un" -> IF ~Accepted(r.c) THEN r.failed /\ r.out = <<>>
                     ELSE s.o = Len(r.out) /\ r.failed = (s.esc \/ s.bad)
    [] r.k = "mtf" -> s.i = Len(r.t) + 1
    [] OTHER -> s.i = Len(r.t) + 1 /\ s.o = Len(r.out)
=============================================================================
