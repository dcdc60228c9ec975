---------------------------- MODULE MC_Pipeline ----------------------------
(* Four concurrent processes connected by pipes that hold CAP bytes each.       *)
EXTENDS Pipeline, Json

CONSTANTS A, MAXN, MAXL, CAP

VARIABLES text, cfg, in, ch, end, buf, mtf, rle, sink, st
vars == <<text, cfg, in, ch, end, buf, mtf, rle, sink, st>>

Cfgs == {c \in UNION {[e : 0..A-1, from : [1..l -> 0..A-1], to : [1..l -> 0..A-1]] : l \in 1..MAXL} : FreesZero(c)}
(* ch[1]: escape to bwt, ch[2]: bwt to mtf, ch[3]: mtf to rle; end[k]: the writer   *)
(* of ch[k] has ended; st[k]: state of stage k                                     *)
Init == /\ text \in Texts(0..A-1, 0, MAXN)
        /\ cfg \in Cfgs
        /\ in = text
        /\ ch = <<<<>>, <<>>, <<>>>>
        /\ end = <<FALSE, FALSE, FALSE>>
        /\ buf = <<>> /\ mtf = MtfList(2 * A) /\ rle = RleInit /\ sink = <<>>
        /\ st = <<"run", "read", "run", "run">>

Room(k, n) == Len(ch[k]) + n <= CAP
EscapeByte == /\ st[1] = "run" /\ in # <<>>
              /\ LET w == CHOOSE x \in EscBytes(cfg, Head(in)) : TRUE
                 IN Room(1, Len(w)) /\ ch' = [ch EXCEPT ![1] = @ \o w]
              /\ in' = Tail(in)
              /\ UNCHANGED <<text, cfg, end, buf, mtf, rle, sink, st>>
EscapeEnd == /\ st[1] = "run" /\ in = <<>>
             /\ st' = [st EXCEPT ![1] = "done"] /\ end' = [end EXCEPT ![1] = TRUE]
             /\ UNCHANGED <<text, cfg, in, ch, buf, mtf, rle, sink>>
BwtRead == /\ st[2] = "read" /\ ch[1] # <<>>
           /\ buf' = Append(buf, Head(ch[1])) /\ ch' = [ch EXCEPT ![1] = Tail(@)]
           /\ UNCHANGED <<text, cfg, in, end, mtf, rle, sink, st>>
(* the stage refuses inputs that contain the terminator                            *)
BwtSort == /\ st[2] = "read" /\ ch[1] = <<>> /\ end[1]
           /\ IF 0 \in Range(buf) THEN st' = [st EXCEPT ![2] = "refused"] /\ buf' = buf
              ELSE st' = [st EXCEPT ![2] = "write"] /\ buf' = BwtAll(buf)
           /\ UNCHANGED <<text, cfg, in, ch, end, mtf, rle, sink>>
BwtWrite == /\ st[2] = "write" /\ buf # <<>> /\ Room(2, 1)
            /\ ch' = [ch EXCEPT ![2] = Append(@, Head(buf))] /\ buf' = Tail(buf)
            /\ UNCHANGED <<text, cfg, in, end, mtf, rle, sink, st>>
BwtEnd == /\ st[2] = "write" /\ buf = <<>>
          /\ st' = [st EXCEPT ![2] = "done"] /\ end' = [end EXCEPT ![2] = TRUE]
          /\ UNCHANGED <<text, cfg, in, ch, buf, mtf, rle, sink>>
MtfByte == /\ st[3] = "run" /\ ch[2] # <<>> /\ Room(3, 1)
           /\ LET p == PosIn(mtf, Head(ch[2]))
              IN ch' = [ch EXCEPT ![2] = Tail(@), ![3] = Append(@, p - 1)] /\ mtf' = ToFront(mtf, p)
           /\ UNCHANGED <<text, cfg, in, end, buf, rle, sink, st>>
MtfEnd == /\ st[3] = "run" /\ ch[2] = <<>> /\ end[2]
          /\ st' = [st EXCEPT ![3] = "done"] /\ end' = [end EXCEPT ![3] = TRUE]
          /\ UNCHANGED <<text, cfg, in, ch, buf, mtf, rle, sink>>
RleIn == /\ st[4] = "run" /\ ch[3] # <<>>
         /\ LET s == RleByte(256, rle, Head(ch[3]))
            IN rle' = [s EXCEPT !.out = <<>>] /\ sink' = sink \o s.out
         /\ ch' = [ch EXCEPT ![3] = Tail(@)]
         /\ UNCHANGED <<text, cfg, in, end, buf, mtf, st>>
RleFinish == /\ st[4] = "run" /\ ch[3] = <<>> /\ end[3]
             /\ sink' = sink \o RleEnd(rle)
             /\ st' = [st EXCEPT ![4] = "done"]
             /\ UNCHANGED <<text, cfg, in, ch, end, buf, mtf, rle>>
Next == EscapeByte \/ EscapeEnd \/ BwtRead \/ BwtSort \/ BwtWrite \/ BwtEnd \/ MtfByte \/ MtfEnd \/ RleIn \/ RleFinish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == st[4] = "done"
NoRefusal == st[2] # "refused"
Lossless == Done => LET b == UnmtfAll(MtfList(2 * A), UnrleAll([key |-> -1, out |-> <<>>], sink))
                        u == UnescAll(cfg, UnescInit, UnbwtAll(b))
                    IN UnescOk(u) /\ u.out = text
Deterministic == Done => sink = Compose(cfg, 2 * A, text)
Orderly == \A k \in 1..3 : end[k] => st[k] = "done"
Stuck == ~ENABLED Next => Done
Terminates == <>Done
Export == Done => PrintT(ToJson([t |-> text, c |-> cfg, out |-> sink]))
=============================================================================
