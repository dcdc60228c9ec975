-------------------------------- MODULE Cli --------------------------------
(* What a command line tool does with its source and its sink: which bytes   *)
(* it analyses, what it writes, and when it may report success.              *)
EXTENDS Codec, Runs

(* Bytes analysed: the first p if a prefix length p > 0 is given and the       *)
(* input is longer.  u is the number of characters per byte (2 for hex).       *)
Analysed(src, p, u) == IF p > 0 /\ u * p < Len(src) THEN SubSeq(src, 1, u * p) ELSE src

(* ---- model tools: one that buffers the input, three transducers, a report -- *)
TOOLS == {"reverse", "escape", "mtf", "rle", "count_runs"}
TRANSDUCERS == {"escape", "mtf", "rle"}
HasPrefix(tool) == tool \in {"reverse", "escape"}
Esc == [e |-> 0, from |-> <<1>>, to |-> <<2>>]
RECURSIVE EscText(_)
EscText(t) == IF t = <<>> THEN <<>> ELSE (CHOOSE w \in EscBytes(Esc, Head(t)) : TRUE) \o EscText(Tail(t))
RECURSIVE MtfText(_, _)
MtfText(l, t) == IF t = <<>> THEN <<>>
                 ELSE LET p == PosIn(l, Head(t)) IN <<p - 1>> \o MtfText(ToFront(l, p), Tail(t))
RECURSIVE RleState(_, _)
RleState(s, t) == IF t = <<>> THEN s ELSE RleState(RleByte(256, s, Head(t)), Tail(t))

(* the output for the input t                                                  *)
Whole(tool, t) == CASE tool = "reverse" -> Rev(t)
                    [] tool = "escape" -> EscText(t)
                    [] tool = "mtf" -> MtfText(MtfList(8), t)
                    [] tool = "rle" -> RleEnd(RleState(RleInit, t))
                    [] tool = "count_runs" -> Dec(RunCount(t)) \o <<10>>
(* the output that is determined by the beginning t of the input               *)
Partial(tool, t) == CASE tool \in {"reverse", "count_runs"} -> <<>>
                      [] tool \in {"escape", "mtf"} -> Whole(tool, t)
                      [] tool = "rle" -> RleState(RleInit, t).out

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
=============================================================================
