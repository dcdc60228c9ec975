------------------------------ MODULE Pipeline ------------------------------
(* escape | bwt | mtf | rle and back.                                          *)
EXTENDS Bwt, Codec

(* escaping makes room for the terminator                                       *)
FreesZero(c) == Accepted(c) /\ 0 \in Range(c.from) /\ 0 \notin Range(c.to) /\ c.e # 0

RECURSIVE EscapeAll(_, _), MtfAll(_, _), RleAll(_, _), UnrleAll(_, _), UnmtfAll(_, _), UnescAll(_, _, _)
EscapeAll(c, t) == IF t = <<>> THEN <<>> ELSE (CHOOSE w \in EscBytes(c, Head(t)) : TRUE) \o EscapeAll(c, Tail(t))
BwtAll(u) == LET z == Append(u, 0) IN SuffixBwt(z, SAOf(z))
MtfAll(l, t) == IF t = <<>> THEN <<>> ELSE LET p == PosIn(l, Head(t)) IN <<p - 1>> \o MtfAll(ToFront(l, p), Tail(t))
RleAll(s, t) == IF t = <<>> THEN RleEnd(s) ELSE RleAll(RleByte(256, s, Head(t)), Tail(t))
Compose(c, A, t) == RleAll(RleInit, MtfAll(MtfList(A), BwtAll(EscapeAll(c, t))))

UnrleAll(s, r) == IF r = <<>> THEN s.out ELSE UnrleAll(UnrleByte(s, Head(r)), Tail(r))
UnmtfAll(l, m) == IF m = <<>> THEN <<>> ELSE <<l[Head(m) + 1]>> \o UnmtfAll(ToFront(l, Head(m) + 1), Tail(m))
(* the row of the terminator comes first; walking back from it spells the text    *)
RECURSIVE InvWalk(_, _, _)
InvWalk(b, lf, s) == IF Len(s.out) = Len(b) - 1 THEN s.out ELSE InvWalk(b, lf, InvStep(b, lf, s))
UnbwtAll(b) == InvWalk(b, LFs(b), [row |-> 1, out |-> <<>>])
UnescAll(c, s, u) == IF u = <<>> THEN s ELSE UnescAll(c, UnescByte(c, s, Head(u)), Tail(u))
=============================================================================
