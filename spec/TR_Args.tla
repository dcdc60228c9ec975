------------------------------ MODULE TR_Args ------------------------------
(* Recorded runs of a tool with many command lines.                             *)
(*   e = [line, v, rc, out, kept, got, want]: the words; the values the line is  *)
(*   claimed to state; the status; standard output if it matters; was everything *)
(*   else left alone?; what the run gave; what the plain line for v gave          *)
EXTENDS Args, TraceBase

ArSInit(r) == [ok |-> TRUE, s |-> 0]
ArSStep(r, s, e) ==
  LET p == Read(Signature(r.tool), e.line)
      good == CASE p.said = "ok" -> e.v = p.v /\ e.plain = Plain(Signature(r.tool), p.v) /\ e.got = e.want
                [] p.said = "refused" -> e.rc \notin {0, -1, -2} /\ e.out = "" /\ e.kept
                [] p.said = "told" -> e.rc = 0 /\ e.out # "" /\ e.kept
  IN [ok |-> good, s |-> s]
ArSFinal(r, s) == TRUE
=============================================================================
