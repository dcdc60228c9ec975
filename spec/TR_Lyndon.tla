----------------------------- MODULE TR_Lyndon -----------------------------
(* Recorded factorizations: every reported ending position is an event.     *)
(* Runs: t (text), sa, rk (certificate), ev (0-based ending positions as    *)
(* reported), and optionally                                                *)
(*   cnt  - reported number of factors (-1: none), len - reported length,   *)
(*   file - bytes of the factor file (0: none).                             *)
EXTENDS Suffix, TraceBase

(* A state: the next text position, the number of the next factor, and the  *)
(* next position of the factor file (0: none was recorded).                 *)
LySInit(r) == IF ~(\A i \in 1..Len(r.t) : r.t[i] >= 0) THEN Bad
              ELSE IF Assert(IsSACert(r.t, r.sa, r.rk), <<"bad certificate", r.id>>)
              THEN Ok(<<1, 1, IF "file" \in DOMAIN r THEN 1 ELSE 0>>) ELSE Bad
(* the file introduces each factor with a header, here for the k-th factor t[i..j] *)
Header(k, i, j) ==
  IF k = 1 THEN <<62, 70, 97, 99, 116, 111, 114, 32, 49, 10>>
  ELSE <<10, 62, 70, 97, 99, 116, 111, 114, 32>> \o Dec(k) \o <<32, 58, 32>> \o Dec(i - 1) \o <<32, 45, 62, 32>> \o Dec(j) \o <<10>>
(* a final factor consisting of one zero byte is left out *)
LeftOut(r, k, i, j) == k > 1 /\ j = Len(r.t) /\ i = j /\ r.t[j] = 0
Written(r, f, h, i, j) ==
  /\ f + Len(h) + (j - i) <= Len(r.file)
  /\ \A x \in 1..Len(h) : r.file[f + x - 1] = h[x]
  /\ \A x \in 0..(j - i) : r.file[f + Len(h) + x] = r.t[i + x]
LySStep(r, s, e) ==
  LET i == s[1]
      j == e + 1
      h == Header(s[2], i, j)
  IN IF /\ i <= Len(r.t) /\ j >= i /\ j <= Len(r.t)
        /\ (Len(r.t) <= 40 => /\ IsLyndonWord(SubSeq(r.t, i, j))
                              /\ \A x \in j+1..Len(r.t) : ~IsLyndonWord(SubSeq(r.t, i, x)))
        /\ IsEndByRank(r.rk, Len(r.t), i, j)
     THEN IF s[3] = 0 \/ LeftOut(r, s[2], i, j) THEN Ok(<<j + 1, s[2] + 1, s[3]>>)
          ELSE IF Written(r, s[3], h, i, j) THEN Ok(<<j + 1, s[2] + 1, s[3] + Len(h) + (j - i + 1)>>) ELSE Bad
     ELSE Bad
LySFinal(r, s) == /\ s[1] = Len(r.t) + 1
                  /\ ("cnt" \in DOMAIN r => r.cnt = Len(r.ev))
                  /\ ("len" \in DOMAIN r => r.len = Len(r.t))
                  /\ ("file" \in DOMAIN r => s[3] = Len(r.file) + 1)
=============================================================================
