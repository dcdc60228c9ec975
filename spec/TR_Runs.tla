------------------------------ MODULE TR_Runs ------------------------------
(* k = "runs"  : reported number of runs of t                               *)
(* k = "sigma" : reported alphabet size and length                          *)
(* k = "r"     : reported runs and length of the transform b                *)
(* k = "chars" : script, bytes read one at a time and how it ended            *)
(* k = "stream": script, outcome of the run counter: a number or failed     *)
EXTENDS Runs, TraceBase
RuSInit(r) == Ok(0)
RuSStep(r, s, e) == Bad
RuSFinal(r, s) ==
  CASE r.k = "runs"  -> r.n = RunCount(r.t)
    [] r.k = "sigma" -> r.n = Sigma(r.t) /\ r.len = Len(r.t)
    [] r.k = "r"     -> IF r.refused THEN r.n = -1 ELSE r.n = RunCount(r.b) /\ r.len = Len(r.b)
    [] r.k = "stream" -> IF Broken(r.s) THEN r.failed ELSE ~r.failed /\ r.n = RunCount(IF Len(r.s) > 300 THEN DeliveredLong(r.s) ELSE Delivered(r.s))
    \* reading byte by byte: what was read, 0 = end of input, 1, 2 = an error, 3 = never ends
    [] r.k = "chars" -> LET d == Delivered(r.s)
                        IN IF Broken(r.s) THEN r.got = SubSeq(d, 1, Len(d) - 1) /\ r.end \in {1, 2} ELSE r.got = d /\ r.end = 0
    [] OTHER -> FALSE
=============================================================================
