------------------------------ MODULE TR_Calls ------------------------------
(* Recorded histories of a program that uses the library.                       *)
(*   r.d: the generators; r.a: the answer of each function call in a process     *)
(*   that makes no other call; r.p: contents of a file                           *)
(*   e = [o, i, x]: o = "n" (next element of generator i; x = <<1, word>> or     *)
(*   <<0, <<>>>>), "r" (created again), "c" (call i, answer x), "p" (content i   *)
(*   written to the file), "g" (the first i bytes of the file read: x; i = 0:     *)
(*   all of them)                                                                 *)
EXTENDS Calls, TraceBase

CaSInit(r) == Ok([g |-> [i \in 1..Len(r.d) |-> New(r.d[i])], f |-> <<>>])
CaSStep(r, s, e) ==
  CASE e.o = "n" -> LET x == Peek(r.d[e.i], s.g[e.i])
                    IN IF e.x = x THEN Ok([s EXCEPT !.g[e.i] = Advanced(r.d[e.i], @, x)]) ELSE Bad
    [] e.o = "r" -> Ok([s EXCEPT !.g[e.i] = New(r.d[e.i])])
    [] e.o = "c" -> IF e.x = r.a[e.i] THEN Ok(s) ELSE Bad
    [] e.o = "p" -> Ok([s EXCEPT !.f = r.p[e.i]])
    [] e.o = "g" -> IF e.x = (IF e.i = 0 THEN s.f ELSE SubSeq(s.f, 1, Min2(e.i, Len(s.f)))) THEN Ok(s) ELSE Bad
    [] OTHER -> Bad
CaSFinal(r, s) == TRUE
=============================================================================
