------------------------------- MODULE MC_Cli -------------------------------
(* A tool as a process: its source delivers the input in pieces, may be        *)
(* interrupted, may fail after `fail' bytes (-1: never); its sink accepts the   *)
(* output in pieces and fails for good after `cap' bytes (-1: never).           *)
EXTENDS Cli, Json

CONSTANTS SIGMA, MAXN, MAXP, MAXCAP, TOOLSET

VARIABLES sc, got, out, pc, status, intr
vars == <<sc, got, out, pc, status, intr>>

Scenarios == {[tool |-> w, t |-> t, p |-> p, fail |-> f, cap |-> c] :
              w \in TOOLSET, t \in Texts(0..SIGMA-1, 0, MAXN), p \in 0..MAXP, f \in -1..MAXN, c \in -1..MAXCAP}
Init == /\ sc \in {s \in Scenarios : s.fail <= Len(s.t) /\ (s.p = 0 \/ HasPrefix(s.tool))}
        /\ got = <<>> /\ out = <<>> /\ pc = "read" /\ status = -1 /\ intr = 0

Want == IF sc.p > 0 THEN sc.p - Len(got) ELSE Len(sc.t) + 1      \* bytes the tool still asks for
There == (IF sc.fail >= 0 THEN sc.fail ELSE Len(sc.t)) - Len(got)
(* (a transducer whose source failed may still write what it has got)            *)
Produced == IF pc = "write" \/ (pc = "dying" /\ There = 0 /\ sc.fail >= 0 /\ sc.tool \in TRANSDUCERS)
            THEN Whole(sc.tool, got) ELSE Partial(sc.tool, got)

Deliver == /\ pc = "read"
           /\ \E n \in 1..Min2(Want, There) : got' = SubSeq(sc.t, 1, Len(got) + n)
           /\ UNCHANGED <<sc, out, pc, status, intr>>
Interrupt == /\ pc \in {"read", "write"} /\ intr = 0 /\ intr' = 1
             /\ UNCHANGED <<sc, got, out, pc, status>>
AtEnd == /\ pc = "read"
         /\ \/ Want = 0
            \/ There = 0 /\ sc.fail < 0
         /\ pc' = "write"
         /\ UNCHANGED <<sc, got, out, status, intr>>
(* (a tool that reads ahead may see the error although it needs no more bytes)   *)
ReadFails == /\ pc = "read" /\ There = 0 /\ sc.fail >= 0
             /\ pc' = "dying"
             /\ UNCHANGED <<sc, got, out, status, intr>>
Write == /\ pc \in {"read", "write", "dying"}
         /\ \E n \in 1..(Len(Produced) - Len(out)) :
              /\ sc.cap >= 0 => Len(out) + n <= sc.cap
              /\ out' = SubSeq(Produced, 1, Len(out) + n)
         /\ UNCHANGED <<sc, got, pc, status, intr>>
WriteFails == /\ pc \in {"read", "write"} /\ Len(out) = sc.cap /\ Len(Produced) > Len(out)
              /\ pc' = "dying"
              /\ UNCHANGED <<sc, got, out, status, intr>>
Exit == /\ \/ pc = "write" /\ out = Produced /\ status' = 0
           \/ pc = "dying" /\ status' = 1
        /\ pc' = "done"
        /\ UNCHANGED <<sc, got, out, intr>>
Next == Deliver \/ Interrupt \/ AtEnd \/ ReadFails \/ Write \/ WriteFails \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == Whole(sc.tool, Analysed(sc.t, sc.p, 1))
(* C16, C28: success means exactly this output, however the bytes came           *)
Faithful == status = 0 => out = Right
(* C27: failure leaves a prefix; a sink that is too small means failure           *)
OnlyPrefix == sc.fail < 0 => IsPrefixOf(out, Right)
SinkFails == status = 0 => (sc.cap < 0 \/ sc.cap >= Len(Right))
(* C29: a source that fails before the analysed bytes are complete means failure  *)
SourceFails == status = 0 => (sc.fail < 0 \/ (sc.p > 0 /\ sc.fail >= sc.p))
BuffersFirst == (sc.tool \in {"reverse", "count_runs"} /\ status = 1 /\ sc.cap < 0) => out = <<>>
NeverStuck == pc # "done" => ENABLED Next
Terminates == <>(pc = "done")
(* Without any failure the tool succeeds                                          *)
Succeeds == pc = "done" /\ sc.fail < 0 /\ (sc.cap < 0 \/ sc.cap >= Len(Right)) => status = 0
Export == pc = "done" /\ intr = 0 => PrintT(ToJson([sc |-> sc, status |-> status, out |-> out]))
=============================================================================
