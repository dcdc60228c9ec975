----------------------------- MODULE TR_LexEnum -----------------------------
(* k = "line": one printed line: d, x, y (the two texts with terminator)      *)
(* k = "stream": ev = <<string number, difference>> of the printed lines in order *)
(* k = "range": strings that were passed over: their differences stay at or   *)
(*              under bound, one less than the record of that moment;         *)
(*              ev = their numbers, with certificates                         *)
EXTENDS LexEnum, TraceBase

(* e = <<number, sa, rk, sa, rk>>: certificates for the string and its renaming *)
DifferenceBy(w, e) ==
  LET t == Append(w, 0)
      u == Append(Renamed(w), 0)
      x == CountFrom(t, e[2], e[3], 1, 0)
      y == CountFrom(u, e[4], e[5], 1, 0)
  IN IF Assert(IsSACert(t, e[2], e[3]) /\ IsSACert(u, e[4], e[5]), <<"bad certificate", e[1]>>)
     THEN (IF x < y THEN y - x ELSE x - y) ELSE 0
LeSInit(r) == Ok(<<-1, -1>>)
LeSStep(r, s, e) == CASE r.k = "stream" -> IF e[1] > s[1] /\ e[2] >= s[2] THEN Ok(e) ELSE Bad
                      [] r.k = "range" -> IF DifferenceBy(Spell(e[1], 32, 97), e) <= r.bound THEN Ok(s) ELSE Bad
                      [] OTHER -> Bad
LeSFinal(r, s) ==
  CASE r.k = "line" ->
         LET x == SubSeq(r.x, 1, Len(r.x) - 1)
             y == SubSeq(r.y, 1, Len(r.y) - 1)
         IN /\ Len(r.x) = 33 /\ Len(r.y) = 33 /\ r.x[33] = 0 /\ r.y[33] = 0
            /\ Range(x) \subseteq {97, 98}
            /\ (y = Renamed(x) \/ y = x)
            /\ LexCount(y) - LexCount(x) = r.d
    [] OTHER -> TRUE
=============================================================================
