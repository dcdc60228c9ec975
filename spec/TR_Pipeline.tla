---------------------------- MODULE TR_Pipeline ----------------------------
(* A recorded run of the real pipeline on t: out is what the last stage wrote,   *)
(* ok whether every stage succeeded, zero whether only runs of the code 48 were  *)
(* encoded.  b, u, sa, rk are certificates: the transform, the escaped text with *)
(* its terminator and the suffix array of it.  Events <<1, byte of out>> decode  *)
(* the run-length code and the move-to-front code, which must give b; events     *)
(* <<2, byte of u>> undo the escaping, which must give t.  runs, len: what the   *)
(* run counter at the end of escape | count_r reported (-1: not run).            *)
EXTENDS Pipeline, Runs, TraceBase

PiSInit(r) ==
  IF /\ r.ok
     /\ Assert(FreesZero(r.c), <<"driver", r.id>>)
     /\ Assert(IsSACert(r.u, r.sa, r.rk), <<"bad certificate", r.id>>)
     \* b is the terminated transform of u, hence u the inverse of b
     /\ Len(r.u) >= 1 /\ r.u[Len(r.u)] = 0 /\ \A i \in 1..Len(r.u)-1 : r.u[i] # 0
     /\ Len(r.b) = Len(r.u) /\ \A x \in 1..Len(r.u) : r.b[x] = r.u[CycPrev(r.u, r.sa[x])]
     /\ r.runs # -1 => r.runs = RunCount(r.b) /\ r.len = Len(r.b)
  THEN Ok([key |-> -1, l |-> MtfList(256), i |-> 0, j |-> 0, k |-> 0, esc |-> FALSE])
  ELSE Bad
RECURSIVE Undo(_, _, _)
(* decoded move-to-front codes against b                                           *)
Undo(r, s, m) == IF m = <<>> THEN Ok(s)
                 ELSE IF s.i < Len(r.b) /\ r.b[s.i + 1] = s.l[Head(m) + 1]
                      THEN Undo(r, [s EXCEPT !.i = @ + 1, !.l = IF Head(m) = 0 THEN @ ELSE ToFront(@, Head(m) + 1)], Tail(m))
                      ELSE Bad
PiSStep(r, s, e) ==
  IF e[1] = 1
  THEN LET d == IF r.zero THEN UnrlzByte(48, [key |-> s.key, out |-> <<>>], e[2]) ELSE UnrleByte([key |-> s.key, out |-> <<>>], e[2])
       IN IF Assert(s.j < Len(r.out) /\ r.out[s.j + 1] = e[2], "events")
          THEN Undo(r, [s EXCEPT !.key = d.key, !.j = @ + 1], d.out) ELSE Bad
  ELSE LET d == UnescByte(r.c, [esc |-> s.esc, out |-> <<>>, bad |-> FALSE], e[2])
           z == s.j - Len(r.out) + 1
       IN IF Assert(s.j >= Len(r.out) /\ r.u[z] = e[2], "events") /\ ~d.bad
             /\ (d.out = <<>> \/ (s.k < Len(r.t) /\ r.t[s.k + 1] = d.out[1]))
          THEN Ok([s EXCEPT !.j = @ + 1, !.esc = d.esc, !.k = @ + Len(d.out)]) ELSE Bad
PiSFinal(r, s) == /\ s.key = -1 /\ ~s.esc
                  /\ s.i = Len(r.b)
                  /\ s.k = Len(r.t)
                  /\ Assert(s.j = Len(r.out) + Len(r.u) - 1, "events")
=============================================================================
