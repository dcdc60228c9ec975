------------------------------- MODULE TR_Cli -------------------------------
(* Recorded runs of the tools.                                                  *)
(* k = "group": all events are runs of one tool with the same options on the     *)
(*   same analysed bytes r.text (u characters per byte):                         *)
(*   e = [src, p, rc, out, ff, val, rep, name]: source bytes, prefix length,      *)
(*   status, output, factor file ("-": none asked for), reported values,          *)
(*   fields of the RESULT line, name of the input                                 *)
(* k = "sink" : r.full is the output without failure; e = [cap, rc, got, min]      *)
(* k = "fail" : e = [m, p, rc, out, full]: reading fails after m bytes; full is     *)
(*   the output for the bytes delivered                                            *)
(* k = "same" : the outputs of all events agree with the first                      *)
EXTENDS Cli, TraceBase

(* what the RESULT line of a tool must say besides the values                       *)
Algo(tool) == CASE tool = "count_lexparse" -> "lexparse" [] tool = "count_z" -> "lz77"
                [] tool = "lyndonfactorization" -> "duval" [] tool = "count_r" -> "bwt"
                [] tool = "count_sigma" -> "count_sigma" [] tool = "entropy" -> "count_entropy"
                [] tool = "entropy_kmer" -> "count_entropy_hash" [] OTHER -> "-"
NameKey(tool) == IF tool \in {"entropy", "entropy_kmer"} THEN "input" ELSE "file"
Terminated(r) == r.tool \in {"entropy", "entropy_kmer", "mus"} \/ (r.tool = "count_r" /\ "n" \notin Range(r.opts))
Field(rep, key) == LET I == {i \in 1..Len(rep) : rep[i][1] = key} IN IF Cardinality(I) = 1 THEN rep[CHOOSE i \in I : TRUE][2] ELSE "?"
TF(b) == IF b THEN "true" ELSE "false"
Bytes(r) == (Len(r.text) \div r.u) + (IF Terminated(r) THEN 1 ELSE 0)
ReportOk(r, e) ==
  r.report => IF e.rc # 0 THEN e.rep = <<>>
              ELSE /\ Field(e.rep, NameKey(r.tool)) = e.name
                   /\ Field(e.rep, "length") = ToString(Bytes(r))
                   /\ Algo(r.tool) # "-" => Field(e.rep, "algo") = Algo(r.tool)
                   /\ r.tool \in {"entropy", "entropy_kmer"} => Field(e.rep, "order") = r.opts[1]
                   /\ r.tool = "count_r" => /\ Field(e.rep, "no_dollar") = TF("n" \in Range(r.opts))
                                            /\ Field(e.rep, "use_matrix") = TF("u" \in Range(r.opts))
(* values are integers (entropies in multiples of 10^-8) or strings; two entropies     *)
(* may differ by rounding                                                              *)
SameValues(r, a, b) == IF r.tool \in {"entropy", "entropy_kmer"} /\ Len(a) = 1 /\ Len(b) = 1
                       THEN a[1] - b[1] \in -1..1 ELSE a = b
Anchored(r, e) ==
  CASE r.tool = "reverse" /\ r.u = 1 -> e.out = Rev(r.text)
    [] r.tool = "count_sigma" /\ r.u = 1 -> e.val = <<ToString(Sigma(r.text))>>
    [] r.tool = "count_runs" /\ r.u = 1 -> e.out = Dec(RunCount(r.text)) \o <<10>>
    [] OTHER -> TRUE

ClSInit(r) == Ok([first |-> TRUE, rc |-> 0, out |-> <<>>, val |-> <<>>, ff |-> "-"])
ClSStep(r, s, e) ==
  CASE r.k = "group" ->
         IF /\ Assert(Analysed(e.src, e.p, r.u) = r.text, <<"driver", r.id>>)
            /\ ReportOk(r, e)
            /\ e.rc = 0 => Anchored(r, e)
            /\ ~s.first => /\ e.rc = s.rc
                           /\ e.rc = 0 => e.out = s.out
                           /\ SameValues(r, e.val, s.val)
                           /\ (e.ff = "-" \/ s.ff = "-" \/ e.ff = s.ff)
            /\ e.rc \notin {-1, -2}                      \* killed, timed out
         THEN Ok([first |-> FALSE, rc |-> e.rc, out |-> e.out, val |-> e.val, ff |-> IF e.ff = "-" THEN s.ff ELSE e.ff])
         ELSE Bad
    [] r.k = "sink" ->
         IF /\ IsPrefixOf(e.got, r.full)
            /\ e.rc = 0 => e.got = r.full
            /\ e.cap < e.min => e.rc # 0
            /\ e.cap >= e.enough => e.rc = 0
            /\ e.rc # -2
         THEN Ok(s) ELSE Bad
    [] r.k = "fail" ->
         IF /\ e.rc # -2
            /\ IF e.p > 0 /\ e.p <= e.m THEN e.rc = 0 => e.out = e.full ELSE e.rc # 0
            /\ IF r.stream THEN IsPrefixOf(e.out, e.full) ELSE e.rc # 0 => e.out = ""
         THEN Ok(s) ELSE Bad
    [] OTHER -> Bad
ClSFinal(r, s) == TRUE
=============================================================================
