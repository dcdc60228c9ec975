----------------------------- MODULE TraceBase -----------------------------
(* Replays recorded runs of the real code against a specification.  A run   *)
(* is a record with an id, inputs, and (optionally) a sequence of events    *)
(* ev.  SInit gives the specification state before the first event (or      *)
(* refuses the run), SStep the state after one event (or refuses it), and   *)
(* SFinal says whether the run may end in that state.  The runs are         *)
(* distributed over BLOCKS initial states so that TLC's workers share them. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS SInit(_), SStep(_, _, _), SFinal(_, _)

Runs == TLCEval(JsonDeserialize(IOEnv.TRACE))
NRuns == Len(Runs)
BLOCKS == 32

VARIABLES run, l, st
vars == <<run, l, st>>

Events(r) == IF "ev" \in DOMAIN r THEN r.ev ELSE <<>>
Skip == run' = run + BLOCKS /\ l' = 0 /\ st' = 0
Reject(why) == PrintT(<<"REJECT", Runs[run].id, l, why>>) /\ Skip

Init == /\ run \in 1..(IF NRuns < BLOCKS THEN NRuns ELSE BLOCKS)
        /\ l = 0
        /\ st = 0

Begin == /\ run <= NRuns
         /\ l = 0
         /\ LET r == SInit(Runs[run])
            IN IF r.ok THEN l' = 1 /\ st' = r.s /\ run' = run ELSE Reject("start")

Event == /\ run <= NRuns
         /\ l >= 1
         /\ l <= Len(Events(Runs[run]))
         /\ LET r == SStep(Runs[run], st, Runs[run].ev[l])
            IN IF r.ok THEN l' = l + 1 /\ st' = r.s /\ run' = run ELSE Reject("event")

End == /\ run <= NRuns
       /\ l = Len(Events(Runs[run])) + 1
       /\ IF SFinal(Runs[run], st) THEN Skip ELSE Reject("end")

Next == Begin \/ Event \/ End
=============================================================================
