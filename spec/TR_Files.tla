------------------------------ MODULE TR_Files ------------------------------
(* Recorded runs of a tool with the same options on the same bytes, each in a    *)
(* directory tree of its own.                                                    *)
(*   e = [before, after, out, rc, got]: the files (name, description) before and  *)
(*   after, the named output ("-": none), the status, what was written or          *)
(*   reported.  All runs have the rights to read the input and write the output.   *)
(* r.any: the outputs may differ (a random generator)                             *)
EXTENDS Files, TraceBase

FiSInit(r) == Ok([first |-> TRUE, rc |-> 0, got |-> ""])
FiSStep(r, s, e) ==
  IF /\ OnlyOutput(Range(e.before), Range(e.after), e.out)
     /\ (e.rc = 0 /\ e.out # "-") => e.out \in {x[1] : x \in Range(e.after)}
     /\ ~s.first => (e.rc = s.rc /\ (r.any \/ e.rc # 0 \/ e.got = s.got))
     /\ e.rc \notin {-1, -2}
  THEN Ok([first |-> FALSE, rc |-> e.rc, got |-> e.got])
  ELSE Bad
FiSFinal(r, s) == TRUE
=============================================================================
