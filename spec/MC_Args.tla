------------------------------ MODULE MC_Args ------------------------------
(* All short command lines of the tools over an alphabet of words that is made   *)
(* of the tool's own options, read word by word.                                 *)
EXTENDS Args, Json

CONSTANTS TOOLSET, MAXLEN, MODE          \* MODE: "few", "rich" or "names"

VARIABLES tool, line, st, cuts
vars == <<tool, line, st, cuts>>

Sig == Signature(tool)
Good(t) == CASE t = "text" -> "f.txt" [] t = "word" -> "fibonacci" [] t = "list8" -> "97,98" [] OTHER -> "2"
Usual(sig) ==
  {"-" \o sig[o].s : o \in {o \in 1..Len(sig) : sig[o].s # ""}}
  \cup {"--" \o sig[o].l : o \in {o \in 1..Len(sig) : sig[o].l # ""}}
  \cup {"-" \o sig[o].s \o Good(sig[o].t) : o \in {o \in 1..Len(sig) : sig[o].s # "" /\ sig[o].t # "flag"}}
  \cup {"--" \o sig[o].l \o "=" \o Good(sig[o].t) : o \in {o \in 1..Len(sig) : sig[o].l # ""}}
  \cup {"-" \o sig[o].s \o sig[k].s : o \in {o \in 1..Len(sig) : sig[o].t = "flag" /\ sig[o].s # ""}, k \in {k \in 1..Len(sig) : sig[k].s # ""}}
  \cup {Good(sig[o].t) : o \in 1..Len(sig)} \cup {"--", "-h"}
  \cup (IF MODE = "rich" THEN {"", "-", "1", "x", "+03", "300", "-2", "--nosuch", "-z", "--help", "-V", "--version", "1,2"}
                     \cup {"-" \o sig[o].s \o "=1" : o \in {o \in 1..Len(sig) : sig[o].s # ""}}
        ELSE {"x", "--nosuch"})

(* words that are nearly options: other letters, beginnings of long names, other     *)
(* spellings and names that other programs use                                       *)
LETTERS == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_=.,:?"
Letters == {Ch(LETTERS, i) : i \in 1..Len(LETTERS)}
FOREIGN == {"input", "infile", "in", "file", "filename", "output", "outfile", "out", "prefix", "prefix-length", "prefix_length", "len", "length", "sigma", "k",
            "order", "name", "use_matrix", "no_dollar", "matrix", "dollar", "from", "to", "escape", "reverse", "revert", "is_reversion", "reversion",
            "only-zero", "only_zero", "zero", "human-readable", "attractors", "positions", "alphabet", "sigma-size", "alphabet_size", "size", "word",
            "quiet", "verbose", "debug", "force", "append", "h", "V", "i", "o", "p", "usage", "License", "Help", "VERSION"}
Nearly(sig) ==
  {"-" \o c : c \in Letters} \cup {"-" \o c \o "2" : c \in Letters} \cup {"-" \o c \o "f.txt" : c \in Letters}
  \cup UNION {{"--" \o SubSeq(l, 1, n) \o v : n \in 1..Len(l), v \in {"", "=2", "=f.txt", "=fibonacci", "="}} :
              l \in {sig[o].l : o \in 1..Len(sig)} \cup {"help", "version"}}
  \cup {"--" \o n \o v : n \in FOREIGN, v \in {"", "=2", "=f.txt"}}
  \cup {"--" \o l \o "s=2" : l \in {sig[o].l : o \in 1..Len(sig)}}
  \cup {"-" \o sig[o].l \o "=2" : o \in 1..Len(sig)} \cup {"-" \o sig[o].l : o \in 1..Len(sig)}
  \cup {sig[o].l : o \in 1..Len(sig)} \cup {sig[o].l \o "=2" : o \in 1..Len(sig)} \cup {"--" \o sig[o].s \o "=2" : o \in 1..Len(sig)}
  \cup {"/h", "/?", "?", "help", "version", "+p", "f.txt", "--no-" \o "use-matrix", "--no-human", "--no-onlyzero", "--no-is-reversion"}
Words(sig) == IF MODE = "names" THEN {w \in Nearly(sig) : w \notin {"-", "--"}} ELSE Usual(sig)
(* (with the mandatory options before, so that only the further word decides)        *)
Needed(sig) == LET ns == SelectSeq([o \in 1..Len(sig) |-> IF ~sig[o].q THEN "" ELSE IF sig[o].t = "pos" THEN "2" ELSE "-" \o sig[o].s \o Good(sig[o].t)], LAMBDA w : w # "")
               IN IF MODE = "names" THEN ns ELSE <<>>
RECURSIVE After(_, _, _)
After(sig, s, ws) == IF ws = <<>> THEN s ELSE After(sig, Word(sig, s, Head(ws)), Tail(ws))

Init == /\ tool \in TOOLSET
        /\ line = Needed(Signature(tool))
        /\ st = After(Signature(tool), Start(Signature(tool)), line)
        /\ cuts = IF Signature(tool)[1].t = "pos" THEN <<>> ELSE [i \in 1..Len(line) |-> i]
Next == /\ Len(line) < MAXLEN + Len(Needed(Sig))
        /\ st.m \notin {"refused", "told"}
        /\ \E w \in Words(Sig) :
             /\ line' = Append(line, w)
             /\ st' = Word(Sig, st, w)
             \* an option begins here
             /\ cuts' = IF st.m \in {"open", "more"} /\ Dashed(w) THEN Append(cuts, Len(line) + 1) ELSE cuts
        /\ UNCHANGED tool

Outcome == End(Sig, st)
(* reading is the same word by word and at once                                  *)
Whole == Read(Sig, line) = Outcome
(* the plain line says the same                                                  *)
Stated == Outcome.said = "ok" => Read(Sig, Plain(Sig, Outcome.v)) = Outcome
(* at most one value, unless the option takes a list; the required are there      *)
Values == Outcome.said = "ok" => \A o \in 1..Len(Sig) :
            /\ List(Sig[o].t) \/ Len(Outcome.v[o]) <= 1
            /\ Sig[o].q => Len(Outcome.v[o]) = 1
            /\ Sig[o].t = "pos" => Len(Outcome.v[o]) = 1
            /\ (~List(Sig[o].t) /\ Sig[o].d # None) => Len(Outcome.v[o]) = 1
(* the order of the options plays no role                                        *)
Block(i) == SubSeq(line, cuts[i], IF i = Len(cuts) THEN Len(line) ELSE cuts[i + 1] - 1)
RECURSIVE Backwards(_)
Backwards(i) == IF i = 0 THEN <<>> ELSE Block(i) \o Backwards(i - 1)
Twice(o) == Cardinality({i \in 1..Len(cuts) : LET w == Block(i)[1] IN
              \/ Dashed(w) /\ Ch(w, 2) # "-" /\ Ch(w, 2) = Sig[o].s
              \/ Dashed(w) /\ Ch(w, 2) = "-" /\ SubSeq(From(w, 3), 1, Find(From(w, 3), "=", 1) - 1) = Sig[o].l}) > 1
Operands == Sig[1].t = "pos"
AnyOrder == (~Operands /\ Outcome.said = "ok" /\ st.m # "rest" /\ \A o \in 1..Len(Sig) : List(Sig[o].t) => ~Twice(o))
              => Read(Sig, Backwards(Len(cuts))) = Outcome
(* every word is part of an option: no operands                                  *)
NoOperands == (~Operands /\ Outcome.said = "ok" /\ line # <<>>) => cuts # <<>> /\ cuts[1] = 1
Export == PrintT(ToJson([tool |-> tool, line |-> line, said |-> Outcome.said, v |-> Outcome.v,
                         plain |-> IF Outcome.said = "ok" THEN Plain(Sig, Outcome.v) ELSE <<>>]))
=============================================================================
