-------------------------------- MODULE Args --------------------------------
(* The command lines of the tools: which options a tool has, how a line of      *)
(* words is read word by word, and what is refused.  Words are strings.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Opt(s, l, t, d, q) == [s |-> s, l |-> l, t |-> t, d |-> d, q |-> q]
None == <<>>
InFile == Opt("i", "infilename", "text", None, FALSE)
OutFile == Opt("o", "outfilename", "text", None, FALSE)
Prefix == Opt("p", "prefixlength", "n64", <<"0">>, FALSE)
Order == Opt("o", "order", "n64", <<"0">>, FALSE)
Matrix == Opt("u", "use-matrix", "flag", None, FALSE)
NoDollar == Opt("n", "no-dollar", "flag", None, FALSE)

(* short name, long name ("": none), type, default, must it be given?           *)
Signature(tool) ==
  CASE tool = "bwt" -> <<InFile, OutFile, Prefix, Matrix, NoDollar>>
    [] tool = "count_r" -> <<InFile, Prefix, Matrix, NoDollar>>
    [] tool \in {"count_z", "count_lexparse", "lyndonfactorization", "reverse"} -> <<InFile, OutFile, Prefix>>
    [] tool = "count_runs" -> <<InFile>>
    [] tool \in {"count_sigma", "mus"} -> <<InFile, Prefix>>
    [] tool \in {"entropy", "entropy_kmer"} -> <<InFile, Prefix, Order>>
    [] tool = "escape" -> <<InFile, OutFile, Prefix, Opt("e", "escape-symbol", "n8", <<"0">>, FALSE),
                            Opt("f", "from-symbols", "list8", None, FALSE), Opt("t", "to-symbols", "list8", None, FALSE),
                            Opt("", "is-reversion", "flag", None, FALSE)>>
    [] tool = "is_stringattractor" -> <<InFile, Prefix, Opt("a", "attractor", "list64", None, FALSE)>>
    [] tool = "lyndonwords" -> <<OutFile, Opt("l", "", "n64", <<"5">>, FALSE), Opt("s", "", "n64", <<"2">>, FALSE)>>
    [] tool = "mtf" -> <<InFile, OutFile>>
    [] tool = "randomstring" -> <<OutFile, Opt("a", "alphabet-size", "n64", None, TRUE), Opt("p", "prefixlength", "n64", <<"10">>, FALSE)>>
    [] tool = "rle" -> <<InFile, OutFile, Opt("", "onlyzero", "flag", None, FALSE), Opt("", "human", "flag", None, FALSE)>>
    [] tool = "enumerate" -> <<Opt("", "", "pos", None, TRUE), Opt("", "", "pos", None, TRUE), Opt("", "", "pos", None, FALSE)>>
    [] tool = "word" -> <<OutFile, Opt("k", "", "n8", None, TRUE), Opt("n", "name", "word", None, TRUE)>>

WORDS == {"fibonacci", "fibonacci-lyndon-factor", "tribonacci", "kolakoski", "thue-morse", "period-doubling", "paper-folding",
          "quaternary-paper-folding", "binary-de-brujin", "power2", "vtm"}

(* ---- characters of words ------------------------------------------------- *)
Ch(x, i) == SubSeq(x, i, i)
From(x, i) == SubSeq(x, i, Len(x))
Digit(c) == IF \E d \in 0..9 : SubSeq("0123456789", d + 1, d + 1) = c
            THEN CHOOSE d \in 0..9 : SubSeq("0123456789", d + 1, d + 1) = c ELSE -1
RECURSIVE NoZeros(_)
NoZeros(x) == IF Len(x) > 1 /\ Ch(x, 1) = "0" THEN NoZeros(From(x, 2)) ELSE x
(* position of the first character c, one beyond the end if there is none       *)
RECURSIVE Find(_, _, _)
Find(x, c, i) == IF i > Len(x) \/ Ch(x, i) = c THEN i ELSE Find(x, c, i + 1)
RECURSIVE Less(_, _, _)
Less(a, b, i) == i <= Len(a) /\ (Digit(Ch(a, i)) < Digit(Ch(b, i)) \/ (Digit(Ch(a, i)) = Digit(Ch(b, i)) /\ Less(a, b, i + 1)))
AtMost(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~Less(b, a, 1))
RECURSIVE Split(_)
Split(x) == LET i == Find(x, ",", 1) IN IF i > Len(x) THEN <<x>> ELSE <<SubSeq(x, 1, i - 1)>> \o Split(From(x, i + 1))

(* ---- values: [ok, v], a number without sign and leading zeros -------------- *)
Bad == [ok |-> FALSE, v |-> None]
Number(x, byte) ==
  LET sign == IF x # "" /\ Ch(x, 1) \in {"+", "-"} THEN Ch(x, 1) ELSE ""
      b == IF sign = "" THEN x ELSE From(x, 2)
  IN IF b = "" \/ \E i \in 1..Len(b) : Digit(Ch(b, i)) = -1 THEN Bad
     ELSE IF sign = "-" /\ ~(byte /\ NoZeros(b) = "0") THEN Bad
     ELSE IF ~AtMost(NoZeros(b), IF byte THEN "255" ELSE "18446744073709551615") THEN Bad
     ELSE [ok |-> TRUE, v |-> <<NoZeros(b)>>]
RECURSIVE Numbers(_)
Numbers(xs) == IF xs = <<>> THEN [ok |-> TRUE, v |-> <<>>]
               ELSE LET a == Number(Head(xs), TRUE) b == Numbers(Tail(xs)) IN IF a.ok /\ b.ok THEN [ok |-> TRUE, v |-> a.v \o b.v] ELSE Bad
Value(t, x) == CASE t = "text" -> [ok |-> TRUE, v |-> <<x>>]
                 [] t = "n64" -> Number(x, FALSE)
                 [] t \in {"list64", "pos"} -> Number(x, FALSE)
                 [] t = "n8" -> Number(x, TRUE)
                 [] t = "list8" -> Numbers(Split(x))
                 [] t = "word" -> IF x \in WORDS THEN [ok |-> TRUE, v |-> <<x>>] ELSE Bad

(* ---- reading a line --------------------------------------------------------- *)
(* m: open - an option may follow; value - the value of option o must follow;     *)
(*    more - further values of option o may follow; rest - after "--";            *)
(*    refused; told - the line asks for help or the version                       *)
Start(sig) == [m |-> "open", o |-> 0, v |-> [k \in 1..Len(sig) |-> None]]
Refuse(st) == [st EXCEPT !.m = "refused"]
Tell(st) == [st EXCEPT !.m = "told"]
List(t) == t \in {"list8", "list64"}
Receive(sig, st, o, x, apart) ==
  LET r == Value(sig[o].t, x)
  IN IF ~r.ok \/ (st.v[o] # None /\ ~List(sig[o].t)) THEN Refuse(st)
     ELSE [m |-> IF sig[o].t = "list64" /\ apart THEN "more" ELSE "open", o |-> o, v |-> [st.v EXCEPT ![o] = st.v[o] \o r.v]]
Raise(sig, st, o) == IF st.v[o] # None THEN Refuse(st) ELSE [st EXCEPT !.m = "open", !.v[o] = <<"true">>]
(* the option with this short or long name, 0 if there is none                    *)
Short(sig, c) == IF \E o \in 1..Len(sig) : sig[o].s = c /\ c # "" THEN CHOOSE o \in 1..Len(sig) : sig[o].s = c ELSE 0
Long(sig, n) == IF \E o \in 1..Len(sig) : sig[o].l = n /\ n # "" THEN CHOOSE o \in 1..Len(sig) : sig[o].l = n ELSE 0

RECURSIVE Cluster(_, _, _)
Cluster(sig, st, x) ==
  IF x = "" THEN [st EXCEPT !.m = "open"]
  ELSE LET c == Ch(x, 1) o == Short(sig, c) y == From(x, 2)
       IN IF c \in {"h", "V"} THEN Tell(st)
          ELSE IF o = 0 THEN Refuse(st)
          ELSE IF sig[o].t = "flag"
               THEN LET s == Raise(sig, st, o) IN IF s.m = "refused" THEN s ELSE Cluster(sig, s, y)
          ELSE IF y = "" THEN [st EXCEPT !.m = "value", !.o = o]
          ELSE Receive(sig, st, o, IF Ch(y, 1) = "=" THEN From(y, 2) ELSE y, FALSE)
LongWord(sig, st, x) ==
  LET e == Find(x, "=", 1) n == SubSeq(x, 1, e - 1) has == e <= Len(x) o == Long(sig, n)
  IN IF n \in {"help", "version"} THEN IF has THEN Refuse(st) ELSE Tell(st)
     ELSE IF o = 0 THEN Refuse(st)
     ELSE IF sig[o].t = "flag" THEN IF has THEN Refuse(st) ELSE Raise(sig, st, o)
     ELSE IF has THEN Receive(sig, st, o, From(x, e + 1), FALSE)
     ELSE [st EXCEPT !.m = "value", !.o = o]

(* a word that is no option and no option's value: the next operand, if the tool has   *)
(* operands (type pos)                                                                 *)
Vacant(sig, st) == {o \in 1..Len(sig) : sig[o].t = "pos" /\ st.v[o] = None}
Operand(sig, st, w) ==
  IF Vacant(sig, st) = {} THEN Refuse(st)
  ELSE LET o == CHOOSE o \in Vacant(sig, st) : \A k \in Vacant(sig, st) : o <= k
           s == Receive(sig, st, o, w, TRUE)
       IN IF s.m = "refused" THEN s ELSE [s EXCEPT !.m = st.m]

Dashed(w) == Len(w) > 1 /\ Ch(w, 1) = "-"
Word(sig, st, w) ==
  CASE st.m \in {"refused", "told"} -> st
    [] st.m = "rest" -> Operand(sig, st, w)
    [] st.m = "value" -> IF Dashed(w) THEN Refuse(st) ELSE Receive(sig, st, st.o, w, TRUE)
    [] OTHER -> IF w = "--" THEN [st EXCEPT !.m = "rest"]
                ELSE IF Dashed(w) /\ Ch(w, 2) = "-" THEN LongWord(sig, st, From(w, 3))
                ELSE IF Dashed(w) THEN Cluster(sig, st, From(w, 2))
                ELSE IF st.m = "more" THEN Receive(sig, st, st.o, w, TRUE)
                ELSE Operand(sig, st, w)
(* the end of the line: a value for every option, or refused, or told             *)
End(sig, st) ==
  CASE st.m = "told" -> [said |-> "told", v |-> <<>>]
    [] st.m \in {"refused", "value"} -> [said |-> "refused", v |-> <<>>]
    [] \E o \in 1..Len(sig) : sig[o].q /\ st.v[o] = None -> [said |-> "refused", v |-> <<>>]
    [] sig[1].t = "pos" ->      \* enumerate: number of letters, shortest and longest length
         LET hi == IF st.v[3] = None THEN st.v[2] ELSE st.v[3]
         IN IF /\ st.v[1][1] # "0" /\ AtMost(st.v[1][1], "26")
               /\ st.v[2][1] # "0" /\ AtMost(st.v[2][1], hi[1])
            THEN [said |-> "ok", v |-> <<st.v[1], st.v[2], hi>>]
            ELSE [said |-> "refused", v |-> <<>>]
    [] OTHER -> [said |-> "ok", v |-> [o \in 1..Len(sig) |-> IF st.v[o] = None THEN sig[o].d ELSE st.v[o]]]

RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(sig, st, line, i) == IF i > Len(line) THEN End(sig, st) ELSE ReadFrom(sig, Word(sig, st, line[i]), line, i + 1)
Read(sig, line) == ReadFrom(sig, Start(sig), line, 1)

(* ---- the plain line for given values: everything stated, one spelling --------- *)
Name(o) == IF o.s # "" THEN "-" \o o.s ELSE "--" \o o.l
RECURSIVE Each(_, _)
Each(name, xs) == IF xs = <<>> THEN <<>> ELSE <<name, Head(xs)>> \o Each(name, Tail(xs))
RECURSIVE PlainFrom(_, _, _)
PlainFrom(sig, v, o) ==
  IF o > Len(sig) THEN <<>>
  ELSE (CASE v[o] = None -> <<>>
          [] sig[o].t = "flag" -> <<Name(sig[o])>>
          [] sig[o].t = "pos" -> v[o]
          [] sig[o].t = "text" -> <<"--" \o sig[o].l \o "=" \o v[o][1]>>
          [] OTHER -> Each(Name(sig[o]), v[o])) \o PlainFrom(sig, v, o + 1)
Plain(sig, v) == PlainFrom(sig, v, 1)
=============================================================================
