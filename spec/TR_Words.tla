------------------------------ MODULE TR_Words ------------------------------
(* Recorded results of the word functions and enumerators, by kind r.k:       *)
(*  border: t, ev = border table; per, prim (-1 = not recorded)               *)
(*  lconj:  t, start (0-based), certificate ord, cls                          *)
(*  conj:   t, ev = rotations, ended                                          *)
(*  conjsel: t, count, full, rows = rotations which (0-based) at positions pos *)
(*  lwg:    m, sg, off, ev = words, ended, stays, limit                       *)
(*  bsg:    m, ev, ended, stays, limit                                        *)
(*  enum:   a, lo, hi (-1: out of range), ev = lines, refused                 *)
(*  kmer:   lines                                                             *)
(*  word:   name, n, len, pos, chars (positions from 1)                       *)
(*  num:    name, ev = decimal digits, lowest first                           *)
(*  rule:   name, n, len, pos, chars                                          *)
(*  kol:    t, ev = the preceding Kolakoski word (<<>> for the zeroth)        *)
(*  db:     n, t                                                              *)
(*  neck:   t, res                                                            *)
(*  neckl:  ev = the characters of a long text, res                           *)
(*  rand:   len, sigma, out                                                   *)
(*  rsg:    lo, hi (bits, lowest first), b, ev, ended, stays, limit           *)
(*  stream: out of a tool, split at line ends; see lwg, enum                  *)
EXTENDS Words, TraceBase

WoSInit(r) ==
  CASE r.k = "lconj" -> IF Assert(IsOrderCert(r.t, [i \in 1..Len(r.t) |-> CycNext(r.t, i)], r.ord, r.cls),
                                  <<"bad certificate", r.id>>) THEN Ok(0) ELSE Bad
    [] r.k = "border" -> Ok(0)
    [] r.k = "kol" -> Ok([p |-> 1, odd |-> TRUE])
    [] r.k = "rsg" -> Ok(r.lo)
    [] r.k = "num" -> Ok(<<>>)
    [] r.k = "neckl" -> Ok([j |-> 2, p |-> 1])
    [] r.k = "word" -> Ok(Lens(Mor[r.name], r.n))
    [] r.k = "conj" -> Ok(0)
    [] OTHER -> Ok(<<>>)

WoSStep(r, s, e) ==
  CASE r.k = "border" ->
         IF /\ s <= Len(r.t)
            /\ e = (IF s <= 1 THEN 0 ELSE Fall(r.t, r.ev, r.ev[s], r.t[s]))
            /\ (Len(r.t) <= 30 => e = BorderDef(SubSeq(r.t, 1, s)))
         THEN Ok(s + 1) ELSE Bad
    [] r.k = "neckl" -> Ok(IF s.j > Len(r.ev) THEN s ELSE PreStep(r.ev, s))
    [] r.k = "conj" -> IF s < Len(r.t) /\ e = Rot(r.t, s + 1) THEN Ok(s + 1) ELSE Bad
    [] r.k = "lwg" ->
         LET v == [i \in 1..Len(e) |-> e[i] - r.off]
             nx == IF s = <<>> THEN (IF r.m = 0 THEN <<>> ELSE <<0>>) ELSE LyndonSucc(s, r.m, r.sg)
         IN IF nx # <<>> /\ v = nx THEN Ok(v) ELSE Bad
    [] r.k = "bsg" ->
         LET nx == IF s = <<>> THEN Const(48, r.m) ELSE NextString(s, 48, 49)
         IN IF e = nx /\ (nx # <<>> \/ r.m = 0) THEN Ok(e) ELSE Bad
    [] r.k = "enum" ->
         LET same == NextString(s, 97, 96 + r.a)
             nx == IF s = <<>> THEN Const(97, r.lo) ELSE IF same # <<>> THEN same
                   ELSE IF Len(s) < r.hi THEN Const(97, Len(s) + 1) ELSE <<>>
         IN IF ~r.refused /\ nx # <<>> /\ e = nx THEN Ok(e) ELSE Bad
    [] r.k = "num" ->
         LET n == Len(s)
             nx == IF n = 0 THEN <<1>> ELSE IF n = 1 THEN <<2>>
                   ELSE IF r.name = "fibonacci" THEN AddDigits(s[n], s[n-1], 10, 0)
                   ELSE IF n = 2 THEN <<4>> ELSE AddDigits(AddDigits(s[n], s[n-1], 10, 0), s[n-2], 10, 0)
         IN IF e = nx THEN Ok(Append(s, e)) ELSE Bad
    [] r.k = "kol" -> IF RunAt(r.t, s.p, e - 96, s.odd) THEN Ok([p |-> s.p + e - 96, odd |-> ~s.odd]) ELSE Bad
    [] r.k = "rsg" -> \* s: start of the range; a text is due unless twice the start reaches the end
         LET x == AddDigits(s, <<1>>, 2, 0)
         IN IF DigitsLess(AddDigits(s, s, 2, 0), r.hi) /\ e = RsgText(x, r.b) THEN Ok(x) ELSE Bad
    [] OTHER -> Bad

EnumOk(r) == r.a \in 1..26 /\ r.lo >= 1 /\ r.hi >= r.lo
WoSFinal(r, s) ==
  CASE r.k = "border" -> /\ s = Len(r.t) + 1
                         /\ LET n == Len(r.t)
                                p == n - r.ev[n+1]
                            IN n > 0 => /\ r.per = p
                                        /\ r.prim = (IF p < n /\ n % p = 0 THEN 0 ELSE 1)
                                        /\ (n <= 30 => r.per = PeriodDef(r.t) /\ r.prim = (IF IsPower(r.t) THEN 0 ELSE 1))
    [] r.k = "lconj" -> r.start + 1 \in 1..Len(r.t) /\ r.cls[r.start + 1] = 1
                        /\ (Len(r.t) <= 30 => IsSmallestRotation(r.t, r.start + 1))
    [] r.k = "conj" -> s = Len(r.t) /\ r.ended
    [] r.k = "conjsel" -> /\ r.count = Len(r.t) /\ r.full
                          /\ Len(r.rows) = Len(r.which)
                          /\ \A x \in 1..Len(r.which) : r.rows[x] = [y \in 1..Len(r.pos) |-> r.t[((r.which[x] + r.pos[y]) % Len(r.t)) + 1]]
    [] r.k = "lwg" -> IF r.ended THEN r.stays /\ (IF s = <<>> THEN r.m = 0 ELSE LyndonSucc(s, r.m, r.sg) = <<>>)
                      ELSE Len(r.ev) = r.limit
    [] r.k = "bsg" -> IF r.ended THEN r.stays /\ Len(r.ev) > 0 /\ NextString(s, 48, 49) = <<>> /\ (r.m = 0 => Len(r.ev) = 1)
                      ELSE Len(r.ev) = r.limit
    [] r.k = "enum" /\ r.limit >= 0 -> EnumOk(r) /\ Len(r.ev) = r.limit   \* the first lines only
    [] r.k = "enum" -> IF EnumOk(r) THEN ~r.refused /\ Len(s) = r.hi /\ NextString(s, 97, 96 + r.a) = <<>>
                       ELSE r.refused /\ r.ev = <<>>
    [] r.k = "kmer" -> /\ Len(r.lines) = 65536
                       /\ \A i \in 1..Len(r.lines) : Len(r.lines[i]) = 8 /\ \A j \in 1..8 : r.lines[i][j] \in 97..100
                       /\ Cardinality({r.lines[i] : i \in 1..Len(r.lines)}) = 65536
    [] r.k = "word" -> LET L == s
                       IN /\ r.len = SumLen(L[r.n + 1], StartWord(r.name), 1)
                          /\ Len(r.pos) = Len(r.chars)
                          /\ \A i \in 1..Len(r.pos) : r.chars[i] = CharAt(Mor[r.name], L, r.n, StartWord(r.name), r.pos[i])
    [] r.k = "rule" -> /\ r.len = RuleLen(r.name, r.n)
                       /\ Len(r.pos) = Len(r.chars)
                       /\ \A i \in 1..Len(r.pos) : r.chars[i] = RuleAt(r.name, r.pos[i])
    [] r.k = "num" -> TRUE
    [] r.k = "kol" -> IF r.ev = <<>> THEN r.t = <<chB, chB>> ELSE s.p = Len(r.t) + 1
    [] r.k = "db" -> IsDeBruijn(r.t, r.n + 1)
    [] r.k = "neck" -> r.res = PrenecklaceFrom(r.t, 2, 1) /\ (Len(r.t) <= 24 => r.res = IsPrenecklace(r.t))
    [] r.k = "neckl" -> s.j = Len(r.ev) + 1 /\ r.res = (s.p > 0)
    [] r.k = "rand" -> /\ Len(r.out) = r.len
                       /\ \A i \in 1..Len(r.out) : r.out[i] \in Alphanumeric
                       /\ (r.sigma > 0 => Cardinality(Range(r.out)) <= r.sigma)
    [] r.k = "rsg" -> IF r.ended THEN r.stays /\ ~DigitsLess(AddDigits(s, s, 2, 0), r.hi) ELSE Len(r.ev) = r.limit
=============================================================================
