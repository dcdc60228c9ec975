------------------------------ MODULE MC_Runs ------------------------------
(* A reader that follows a script, delivering at most PIECE bytes per call,   *)
(* feeds the two counters through a buffer of one byte (read_exact).          *)
EXTENDS Runs, Json

CONSTANTS SIGMA, MAXN

VARIABLES script, rest, piece, buf, cnt, sig, st, got
vars == <<script, rest, piece, buf, cnt, sig, st, got>>

Init == /\ script \in Texts({-2, -1} \cup 1..SIGMA, 0, MAXN)
        /\ rest = script
        /\ piece \in 1..2
        /\ buf = <<>>
        /\ cnt = [prev |-> -1, n |-> 0]
        /\ sig = [seen |-> {}, n |-> 0]
        /\ st = "run"
        /\ got = <<>>
(* one call of read: an error, or a piece of at most `piece' bytes              *)
Pieces == {p \in 1..piece : p <= Len(rest) /\ \A i \in 1..p : rest[i] > 0}
Read == /\ st = "run" /\ buf = <<>>
        /\ IF rest = <<>> THEN st' = "eof" /\ UNCHANGED <<rest, buf>>
           ELSE IF Head(rest) = -1 THEN rest' = Tail(rest) /\ UNCHANGED <<st, buf>>        \* retried
           ELSE IF Head(rest) = -2 THEN st' = "failed" /\ UNCHANGED <<rest, buf>>
           ELSE LET p == MaxOf(Pieces) IN buf' = SubSeq(rest, 1, p) /\ rest' = SubSeq(rest, p + 1, Len(rest)) /\ UNCHANGED st
        /\ UNCHANGED <<script, piece, cnt, sig, got>>
Consume == /\ st = "run" /\ buf # <<>>
           /\ cnt' = RunStep(cnt, Head(buf)) /\ sig' = SigmaStep(sig, Head(buf))
           /\ got' = Append(got, Head(buf))
           /\ buf' = Tail(buf)
           /\ UNCHANGED <<script, rest, piece, st>>
Next == Read \/ Consume
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

CountsRight == cnt.n = RunCount(got) /\ sig.n = Sigma(got)
(* the result does not depend on pieces and interruptions, and a stream that   *)
(* breaks never counts as ended                                                *)
Complete == st = "eof" => ~Broken(script) /\ got = Delivered(script)
SameDelivered == rest = script => Delivered(script) = DeliveredLong(script)
Fails == st = "failed" => Broken(script)
Bound == cnt.n <= Len(got) /\ (got # <<>> => sig.n <= cnt.n)
Terminates == <>(st # "run")
Export == st # "run" => PrintT(ToJson([s |-> script, piece |-> piece, st |-> st, runs |-> cnt.n, sigma |-> sig.n, got |-> got]))
=============================================================================
