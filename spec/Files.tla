------------------------------- MODULE Files -------------------------------
(* A tool among files: which files it may read and write, and which it may     *)
(* change.  A file system is a set of pairs <<name, description>>.             *)
EXTENDS Cli

Changed(before, after) == {x[1] : x \in (before \ after) \cup (after \ before)}
(* only the named output may differ (out = "-": none is named)                 *)
OnlyOutput(before, after, out) == Changed(before, after) \subseteq (IF out = "-" THEN {} ELSE {out})
=============================================================================
